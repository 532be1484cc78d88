"""M05: the data bytes of an event grain and its event attributes are two views of one state."""
import asyncio
import copy
import json

from .. import gen
from . import m01

ID = "M05"
LEVEL = "exploration"
RULE = ("Event grains made in every way (keywords, metadata, factory, with payload data in many byte forms, with data that arrives later) are driven by random "
        "sequences of attribute, element, element-list and data assignments, in parallel with a plain model; after each step the data bytes, parsed strictly, "
        "must be the JSON of exactly the model, and all attributes equal it; random and mutated malformed payloads must be refused with a ValueError leaving "
        "everything as it was; grains rebuilt from the data must have the same attributes. Distinct = (operation, form, outcome).")
FLOORS = dict(operations=8000, data_assigned=350, malformed=350, rebuilt=350, late=300, null_values=300)


def plan(ctx):
    n = ctx.n(150, 4000)
    return [("edit-%d" % j, dict(kind="edit")) for j in range(n)] + [("late-%d" % j, dict(kind="late")) for j in range(n // 2)]


def no_dup(pairs):
    d = {}
    for k, v in pairs:
        if k in d:
            raise ValueError("duplicate key " + k)
        d[k] = v
    return d


def bad_const(c):
    raise ValueError("not JSON: " + c)


def canon(x):
    return json.dumps(x, sort_keys=True)


def r_val(rng, depth=0):
    return json.loads(json.dumps(gen.r_json(rng)))


def r_elem(rng, null=True):
    e = {"path": gen.r_str(rng)}
    for k in ("pre", "post"):
        if rng.random() < 0.6:
            e[k] = None if null and rng.random() < 0.15 else r_val(rng)
    return e


def r_model(rng, null=True):
    return dict(type=gen.r_str(rng), topic=gen.r_str(rng), data=[r_elem(rng, null) for _ in range(rng.choice([0, 1, 1, 2, 4, 7]))])


def encode(rng, m):
    """a JSON text of the model, in one of the spellings JSON allows"""
    m = copy.deepcopy(m)
    if rng.random() < 0.3:
        ks = list(m)
        rng.shuffle(ks)
        m = {k: m[k] for k in ks}
        m["data"] = [{k: e[k] for k in rng.sample(list(e), len(e))} for e in m["data"]]
    if rng.random() < 0.2:
        m["extra"] = [1]
    ok = True
    try:
        s = json.dumps(m, ensure_ascii=rng.random() < 0.5, indent=rng.choice([None, None, 0, 2]), separators=rng.choice([None, (",", ":")]))
        s.encode("utf-8")
    except UnicodeEncodeError:
        ok = False
    if not ok:
        s = json.dumps(m)
    if rng.random() < 0.2:
        s = rng.choice([" ", "\n", "\t \r\n"]) + s + rng.choice(["", " ", "\n"])
    return s


def judge(ctx, g, m, where):
    raw = g.data
    ctx.require(isinstance(raw, bytes), where + ": data is not bytes", got=type(raw).__name__)
    try:
        p = json.loads(raw.decode("utf-8"), object_pairs_hook=no_dup, parse_constant=bad_const)
    except ValueError as e:
        ctx.fail(where + ": data is not strict UTF-8 JSON", error=str(e), data=raw[:200])
    ctx.require(isinstance(p, dict) and canon(p) == canon(m), where + ": data is not the JSON of the event attributes", got=p, want=m)
    ctx.require(canon([g.event_type, g.topic]) == canon([m["type"], m["topic"]]), where + ": type or topic", got=(g.event_type, g.topic), want=(m["type"], m["topic"]))
    el = list(g.event_data)
    ctx.require(canon([dict(e) for e in el]) == canon(m["data"]), where + ": event data", got=[dict(e) for e in el], want=m["data"])
    for e, w in zip(el, m["data"]):
        ctx.require(canon([e.path, e.pre, e.post]) == canon([w["path"], w.get("pre"), w.get("post")]), where + ": element attributes", got=dict(e), want=w)
        ctx.require(sorted(e) == sorted(w) and len(e) == len(w) and ("pre" in e) == ("pre" in w), where + ": element keys", got=list(e), want=list(w))
    ctx.require(canon(g.meta["grain"]["event_payload"]) == canon(m), where + ": metadata payload", got=g.meta["grain"]["event_payload"], want=m)
    ctx.require(g.length == len(raw) and g[1] == raw and tuple(g)[1] == raw, where + ": length or tuple view")


# every entry: a payload text refused as malformed
def r_malformed(rng):
    m = r_model(rng)
    s = json.dumps(m)
    k = rng.randrange(14)
    if k == 0:
        return s[:rng.randrange(len(s))].encode(), "truncated"
    if k == 1:
        return s.encode() + b"\xff\xfe", "not utf-8"
    if k == 2:
        del m[rng.choice(["type", "topic", "data"])]
        return json.dumps(m).encode(), "key missing"
    if k == 3:
        m["data"] = rng.choice([None, {}, "x", 5, {"path": "p"}, True])
        return json.dumps(m).encode(), "data not a list"
    if k == 4:
        m["data"].insert(rng.randrange(len(m["data"]) + 1), rng.choice([None, 5, "path", [], ["path"], {}, {"pre": 1}, {"Path": "x", "post": 2}, True]))
        return json.dumps(m).encode(), "bad element"
    if k == 5:
        return json.dumps(rng.choice([None, 5, "x", [], [m], True, 1.5, "type topic data", ["type", "topic", "data"]])).encode(), "not an object"
    if k == 6:
        return b"", "empty"
    if k == 7:
        return (s + rng.choice(["x", "{}", ",", "]", "\x00"])).encode(), "trailing"
    if k == 8:
        return s, "never"       # replaced below
    if k == 9:
        return ("[" * rng.choice([5000, 200000])).encode(), "deep"
    if k == 10:
        return b"\xef\xbb\xbf" + s.encode(), "byte order mark"
    if k == 11:
        return rng.randbytes(rng.randint(1, 40)), "garbage"
    if k == 12:
        return s.encode("utf-16"), "utf-16"
    return s.replace('"type"', "'type'", 1).encode(), "quotes"


def malformed(ctx, rng, g, m, where):
    b, why = r_malformed(rng)
    if why == "never":
        b, why = "{", "str"
    if why == "garbage":
        try:
            json.loads(b.decode())
            return
        except (ValueError, RecursionError):
            pass
    if isinstance(b, bytes) and rng.random() < 0.3 and why not in ("not utf-8", "garbage", "utf-16"):
        try:
            b = b.decode()
        except UnicodeDecodeError:
            pass
        else:
            why += " (str)"
    meta, ident = copy.deepcopy(g.meta), g.meta
    ctx.raises(ValueError, lambda: setattr(g, "data", b), "%s: malformed payload (%s) accepted" % (where, why))
    ctx.require(g.meta is ident and g.meta == meta, "%s: refused payload (%s) changed the grain" % (where, why), got=g.meta, want=meta)
    judge(ctx, g, m, "%s: after refusing a payload (%s)" % (where, why))
    if isinstance(b, bytes):
        from mediagrains import grains as mg
        mm = copy.deepcopy(g.meta)
        ctx.raises(ValueError, lambda: mg.GrainFactory(mm, b), "%s: grain made from a malformed payload (%s)" % (where, why))
    ctx.count("malformed")
    ctx.saw("malformed", why)


def make(ctx, rng):
    from mediagrains import grains as mg
    d = gen.r_desc(rng, "event")
    how = rng.choice(["class", "meta", "factory data", "class data", "no payload", "append"])
    if how in ("class", "meta"):
        return gen.build(d, how), json.loads(json.dumps(gen.event_payload(d))), how
    m = r_model(rng)
    meta = gen.meta_of(d)
    if how in ("factory data", "class data"):
        b = encode(rng, m).encode()
        b, f = rng.choice([(b, "bytes"), (bytearray(b), "bytearray"), (memoryview(b), "memoryview"), (m01.Bytesish(b), "object")])
        if rng.random() < 0.5:
            del meta["grain"]["event_payload"]
        g = mg.GrainFactory(meta, b) if how == "factory data" else mg.EventGrain(meta=meta, data=b)
        return g, m, how + " " + f
    if how == "no payload":
        want = dict(type="", topic="", data=[])
        p = meta["grain"]["event_payload"]
        for k in rng.sample(["type", "topic", "data"], rng.randint(1, 3)):
            del p[k]
        want.update(p)
        if rng.random() < 0.3:
            del meta["grain"]["event_payload"]
            want = dict(type="", topic="", data=[])
        return mg.EventGrain(meta), json.loads(json.dumps(want)), how
    m = r_model(rng, null=False)
    g = mg.EventGrain(src_id=d["src"], flow_id=d["flow"], event_type=m["type"], topic=m["topic"])
    for e in m["data"]:
        g.append(e["path"], *([e.get("pre")] if "pre" in e else []), **({"post": e["post"]} if "post" in e else {}))
        for k in ("pre", "post"):
            if k in e and e[k] is None:
                del e[k]
    return g, m, how


def case(ctx, rng, key, p):
    if p["kind"] == "late":
        return case_late(ctx, rng)
    from mediagrains import grains as mg
    for _ in range(4):
        g, m, how = make(ctx, rng)
        m = copy.deepcopy(m)
        where = "event grain (%s)" % how
        judge(ctx, g, m, where)
        hist = []
        for _ in range(rng.randint(8, 25)):
            op = rng.choice(["type", "topic", "append", "append", "elements", "data", "element", "element", "element", "malformed", "meta", "rebuild", "inplace"])
            n = len(m["data"])
            if op == "type":
                m["type"] = g.event_type = gen.r_str(rng)
            elif op == "topic":
                m["topic"] = g.topic = gen.r_str(rng)
            elif op == "append":
                e = r_elem(rng)
                g.append(e["path"], e.get("pre"), e.get("post"))
                m["data"].append({k: copy.deepcopy(v) for k, v in e.items() if v is not None})
            elif op == "elements":
                es = [r_elem(rng) for _ in range(rng.randint(0, 4))]
                m["data"] = copy.deepcopy(es)
                g.event_data = [mg.EventGrain.DATA(e) if rng.random() < 0.5 else e for e in es]
                if any(v is None for e in es for v in e.values()):
                    ctx.count("null_values")
            elif op == "data":
                m = r_model(rng)
                s = encode(rng, m)
                f = rng.choice(["bytes", "str", "bytearray"])
                g.data = dict(bytes=s.encode(), str=s, bytearray=bytearray(s.encode()))[f]
                ctx.count("data_assigned")
                if any(v is None for e in m["data"] for v in e.values()):
                    ctx.count("null_values")
                op += " " + f
            elif op == "element" and n:
                i = rng.randrange(n)
                e = g.event_data[i]
                k = rng.choice(["path", "pre", "post"])
                if k == "path":
                    v = gen.r_str(rng)
                    setattr(e, k, v) if rng.random() < 0.5 else e.__setitem__(k, v)
                    m["data"][i][k] = v
                else:
                    v = rng.choice([None, r_val(rng), r_val(rng)])
                    form = rng.choice(["attr", "item", "del"])
                    if form == "attr":
                        setattr(e, k, v)
                        if v is None:
                            m["data"][i].pop(k, None)
                        else:
                            m["data"][i][k] = copy.deepcopy(v)
                    elif form == "item":
                        e[k] = v
                        m["data"][i][k] = copy.deepcopy(v)
                    elif k in m["data"][i]:
                        del e[k]
                        del m["data"][i][k]
                    else:
                        ctx.raises(KeyError, lambda: e.__delitem__(k), where + ": deleting an absent value")
                    op += " " + form
                op += " " + k
            elif op == "inplace" and n:
                # a value that is itself a list, edited through the element
                i = rng.randrange(n)
                g.event_data[i].pre = [1]
                g.event_data[i].pre.append({"x": 2})
                m["data"][i]["pre"] = [1, {"x": 2}]
            elif op == "meta":
                pl = g.meta["grain"]["event_payload"]
                if n and rng.random() < 0.5:
                    pl["data"].pop()
                    m["data"].pop()
                else:
                    pl["topic"] = m["topic"] = gen.r_str(rng)
            elif op == "malformed":
                malformed(ctx, rng, g, m, where)
            elif op == "rebuild":
                meta = copy.deepcopy(g.meta)
                b = g.data
                if rng.random() < 0.5:
                    meta["grain"]["event_payload"] = rng.choice([{}, {"type": "old", "topic": "old", "data": [{"path": "old"}]}])
                h = mg.GrainFactory(meta, b) if rng.random() < 0.5 else mg.EventGrain(meta, b)
                judge(ctx, h, m, where + ", rebuilt")
                ctx.require(h == g and g == h, where + ": rebuilt grain differs", got=h.meta, want=g.meta)
                h2 = gen.build(gen.r_desc(rng, "event"))
                h2.data = b
                judge(ctx, h2, m, where + ", data assigned to another grain")
                ctx.count("rebuilt")
            hist.append(op)
            judge(ctx, g, m, "%s after %s" % (where, ", ".join(hist[-4:])))
            ctx.count("operations")
            ctx.saw(op.split(" (")[0])
    ctx.sample(dict(how=how, operations=hist), 1)


def case_late(ctx, rng):
    from mediagrains import grains as mg

    async def run():
        for _ in range(6):
            m = r_model(rng)
            b = encode(rng, m).encode()
            gate = asyncio.Event()
            fate = rng.choice(["arrives", "arrives", "none", "malformed", "replaced", "replaced during", "fails"])
            if fate == "malformed":
                b, why = r_malformed(rng)
                if why in ("never", "garbage"):
                    b = b"{"
            form = rng.choice([bytes, bytearray, memoryview, m01.Bytesish])

            async def fetch():
                await gate.wait()
                if fate == "fails":
                    raise OSError("no data")
                return None if fate == "none" else form(b)
            d = gen.r_desc(rng, "event")
            first = json.loads(json.dumps(gen.event_payload(d)))
            meta = gen.meta_of(d)
            if rng.random() < 0.4:
                del meta["grain"]["event_payload"]
                first = dict(type="", topic="", data=[])
            co = fetch()
            g = mg.GrainFactory(meta, co) if rng.random() < 0.5 else mg.EventGrain(meta=meta, data=co)
            where = "event grain whose data %s (%s)" % (fate, form.__name__)
            judge(ctx, g, first, where + ", before")
            new = r_model(rng)
            s = encode(rng, new)
            if fate == "replaced":
                g.data = s.encode()
                judge(ctx, g, new, where + ", assigned")
                gate.set()
            task = asyncio.ensure_future(_await(g))
            await asyncio.sleep(0)
            if fate == "replaced during":
                g.data = s
                judge(ctx, g, new, where + ", assigned")
            gate.set()
            if fate in ("malformed", "fails"):
                try:
                    r = await task
                    ctx.fail(where + ": awaited without an error", got=r)
                except (ValueError, OSError) as e:
                    ctx.require(isinstance(e, ValueError) == (fate == "malformed"), where + ": wrong error", got=repr(e))
                m = first
            else:
                r = await task
                if fate.startswith("replaced"):
                    m = new
                elif fate == "none":
                    m = first
                ctx.require(r == g.data, where + ": result of awaiting", got=r, data=g.data)
            judge(ctx, g, m, where + ", awaited")
            if fate != "fails":
                await _await(g)
                async with g as h:
                    ctx.require(h is g, where + ": async with")
                judge(ctx, g, m, where + ", awaited again")
            if fate == "replaced":
                co.close()
            g.topic = m["topic"] = "later"
            judge(ctx, g, m, where + ", changed later")
            ctx.count("late")
            ctx.saw("late", fate, form.__name__)

    async def _await(g):
        return await g
    asyncio.run(run())
