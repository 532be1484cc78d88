"""M02: the list-like attributes of grains behave like lists and always show the stored metadata."""
import copy
import json

import numpy

from .. import gen

ID = "M02"
LEVEL = "exploration"
RULE = ("Random sequences of list operations (indexing, slicing, item and slice assignment, deletion, insertion, append, extend, +=, reverse, pop, remove, "
        "clear, index, count, membership, iteration, comparison, element edits, whole-attribute assignment) run through freshly made and long-held views of "
        "time labels, components, unit offsets and event data; a plain Python list is driven in parallel; results, exceptions, all views and the JSON of the "
        "metadata are compared after every step. Distinct = (view, operation, key form, outcome).")
CPU_LIMIT_S = 20
FLOORS = dict(operations=20000, refused=2000, element_edits=1000, self_operations=500, attribute_assignments=500)


def plan(ctx):
    n = ctx.n(90, 2000)
    return [("%s-%d" % (v, j), dict(view=v)) for v in ("timelabels", "components", "unit_offsets", "event_data") for j in range(n)]


def r_elem(rng, view):
    if view == "timelabels":
        if rng.random() < 0.2:
            from fractions import Fraction
            return gen.tl_meta((rng.choice(["", "x"]), rng.choice([0, 5]), Fraction(rng.choice([0, 25])), rng.random() < 0.3))
        return gen.tl_meta((gen.r_str(rng, 16), gen.r_uint(rng, 32), gen.r_rate(rng), rng.random() < 0.5))
    if view == "components":
        return {k: gen.r_uint(rng, 16) for k in ("width", "height", "stride", "offset", "length")}
    if view == "unit_offsets":
        return gen.r_uint(rng, 32)
    e = {"path": gen.r_str(rng)}
    if rng.random() < 0.5:
        e["pre"] = gen.r_json(rng)
    if rng.random() < 0.5:
        e["post"] = gen.r_json(rng)
    return json.loads(json.dumps(e))


HANDED = []     # (element as it was handed over, what it was then)


def wrapped(rng, view, e):
    """an element as it may be handed to the view"""
    from mediagrains import grains as mg
    e = copy.deepcopy(e)
    if view in ("components", "event_data"):
        # the grain keeps one of its own: the caller's stays as it is
        HANDED.append((e, copy.deepcopy(e)))
        del HANDED[:-40]
    if view == "timelabels" and rng.random() < 0.3:
        # what a time label lacks is filled in
        for (x, k, d) in ((e["timelabel"], "frames_since_midnight", 0), (e["timelabel"], "frame_rate_denominator", 1), (e["timelabel"], "drop_frame", False), (e, "tag", "")):
            if x[k] == d:
                del x[k]
        if e["timelabel"].get("frame_rate_numerator") == 0:
            del e["timelabel"]["frame_rate_numerator"]
        if not e["timelabel"]:
            del e["timelabel"]
        return e
    if rng.random() < 0.5 or view == "unit_offsets":
        return e
    return dict(timelabels=mg.Grain.TIMELABEL, components=mg.VideoGrain.COMPONENT, event_data=mg.EventGrain.DATA)[view](e)


def plain(view, x):
    """an element read from the view as plain data"""
    return x if view == "unit_offsets" else dict(x)


def stored(g, view):
    m = json.loads(json.dumps(g.meta))["grain"]
    if view == "timelabels":
        return m.get("timelabels", [])
    if view == "components":
        return m["cog_frame"]["components"]
    if view == "unit_offsets":
        return m["cog_coded_frame"].get("unit_offsets", [])
    return m["event_payload"]["data"]


def r_index(rng, n):
    return rng.choice([0, -1, n - 1, n, -n, -n - 1, rng.randint(-n - 2, n + 2), rng.randint(-3, 3)])


def r_slice(rng, n):
    def b():
        return rng.choice([None, rng.randint(-n - 2, n + 2)])
    return slice(b(), b(), rng.choice([None, None, None, 1, 2, -1, 3, -2]))


def case(ctx, rng, key, p):
    from mediagrains import grains as mg
    view = p["view"]
    for _ in range(4):
        t = rng.choice(gen.TYPES) if view == "timelabels" else dict(components="video", unit_offsets="coded_video", event_data="event")[view]
        d = gen.r_desc(rng, t)
        if view == "components":
            d.update(width=4, height=2)
        g = gen.build(d, rng.choice(["class", "meta"]))
        if view == "components" and rng.random() < 0.3:
            from mediagrains import numpy as mnp
            name = rng.choice(gen.PLANAR)
            g = mnp.VideoGrain(src_id=gen.r_uuid(rng), flow_id=gen.r_uuid(rng), width=4, height=2, cog_frame_format=_ff(gen.FRAME[name]))
        model = stored(g, view)
        held = getattr(g, view)
        rest = lambda: {k: v for k, v in _rest(g, view).items()}
        before = rest()
        hist = []
        HANDED.clear()
        for _ in range(25):
            step(ctx, rng, g, view, held, model, hist)
            ctx.count("operations")
            # every view and the metadata show the same list
            where = "%s of %s after %s" % (view, type(g).__name__, "; ".join(hist[-4:]))
            try:
                st = stored(g, view)
            except TypeError as e:
                ctx.fail(where + ": metadata is not JSON-serialisable", error=str(e))
            ctx.equal(st, model, where + ": stored metadata")
            fresh = getattr(g, view)
            ctx.equal([plain(view, x) for x in fresh], model, where + ": fresh view")
            if view != "event_data":
                ctx.equal([plain(view, x) for x in held], model, where + ": view held all the time")
                ctx.require(len(held) == len(model) and held == fresh and fresh == held and not (held != fresh), where + ": views are equal")
            ctx.require(list(fresh) == model and fresh == model and not (fresh != model), where + ": comparison with a list")
            if view == "unit_offsets":
                ctx.require(repr(fresh) == repr(held) == repr(model), where + ": repr()", got=repr(fresh))
            ctx.require(not (fresh == model + [1]) and fresh != model + [1], where + ": comparison with another list")
            for x in (None, 5, "x"):
                ctx.require(not (fresh == x) and fresh != x and not (x == fresh) and not (held == x), where + ": comparison with %r" % (x,))
            ctx.equal(rest(), before, where + ": other metadata")
            for (x, was) in HANDED:
                ctx.require(x == was, where + ": an element handed over earlier has changed", now=x, was=was)
    ctx.sample(dict(view=view, history=hist[-5:]), 2)


def _ff(v):
    from mediagrains.cogenums import CogFrameFormat
    return CogFrameFormat(v)


def _rest(g, view):
    m = copy.deepcopy(g.meta)
    if view == "timelabels":
        m["grain"].pop("timelabels", None)
    elif view == "components":
        m["grain"]["cog_frame"].pop("components")
    elif view == "unit_offsets":
        m["grain"]["cog_coded_frame"].pop("unit_offsets", None)
    else:
        m["grain"]["event_payload"].pop("data")
    return m


OPS = ["get", "get", "getslice", "getslice", "set", "setslice", "setslice", "del", "delslice", "insert", "append", "append", "extend", "iadd", "reverse",
       "pop", "remove", "clear", "index", "count", "contains", "iter", "reversed", "elem", "elem", "assign", "selfext", "selfassign", "badkey"]


def step(ctx, rng, g, view, held, model, hist):
    op = rng.choice(OPS)
    n = len(model)
    if view == "event_data":
        # a fresh plain list of live element views: only reading, element edits, append and assignment change the grain
        op = rng.choice(["get", "getslice", "elem", "elem", "assign", "append", "index", "contains", "iter", "selfassign", "count"])
    v = held if rng.random() < 0.5 and view != "event_data" else getattr(g, view)
    e = r_elem(rng, view)
    w = wrapped(rng, view, e)

    def both(f_view, f_list, text, reads=False):
        """the same operation on the view and on a list: same result or same kind of error"""
        hist.append(text)
        snapshot = copy.deepcopy(model)
        try:
            want, werr = f_list(model), None
        except Exception as x:
            want, werr = None, x
            model[:] = snapshot
        try:
            got, gerr = f_view(v), None
        except Exception as x:
            got, gerr = None, x
        where = "%s: %s on %r" % (view, text, snapshot)
        if werr is not None:
            ctx.require(gerr is not None and isinstance(gerr, type(werr)), where + ": error", got=gerr, want=werr)
            ctx.count("refused")
        else:
            ctx.require(gerr is None, where + ": unexpected error", got=repr(gerr))
        ctx.saw(view, op, None if werr is None else type(werr).__name__, n > 0)
        return got, want, werr is not None, where

    if op == "get":
        i = r_index(rng, n)
        got, want, bad, where = both(lambda x: x[i], lambda x: x[i], "[%d]" % i)
        if not bad:
            ctx.equal(plain(view, got), want, where)
            if view != "unit_offsets":
                check_elem(ctx, view, got, want, where)
    elif op == "getslice":
        s = r_slice(rng, n)
        got, want, bad, where = both(lambda x: x[s], lambda x: x[s], "[%r]" % s)
        if not bad:
            ctx.require(isinstance(got, list), where + ": type", got=type(got))
            ctx.equal([plain(view, x) for x in got], want, where)
    elif op == "set":
        i = r_index(rng, n)
        both(lambda x: x.__setitem__(i, w), lambda x: x.__setitem__(i, e), "[%d] = %r" % (i, e))
    elif op == "setslice":
        s = r_slice(rng, n)
        k = len(range(n)[s]) if rng.random() < 0.6 else rng.randint(0, 4)
        es = [r_elem(rng, view) for _ in range(k)]
        ws = [wrapped(rng, view, x) for x in es]
        kind = rng.choice([list, tuple, iter])
        both(lambda x: x.__setitem__(s, kind(ws)), lambda x: x.__setitem__(s, es), "[%r] = %r" % (s, es))
    elif op == "del":
        i = r_index(rng, n)
        both(lambda x: x.__delitem__(i), lambda x: x.__delitem__(i), "del [%d]" % i)
    elif op == "delslice":
        s = r_slice(rng, n)
        both(lambda x: x.__delitem__(s), lambda x: x.__delitem__(s), "del [%r]" % s)
    elif op == "insert":
        i = r_index(rng, n)
        both(lambda x: x.insert(i, w), lambda x: x.insert(i, e), "insert(%d, %r)" % (i, e))
    elif op == "append":
        if view == "event_data":
            hist.append("append(%r)" % e)
            g.append(e["path"], e.get("pre"), e.get("post"))
            model.append({k: x for k, x in e.items() if k == "path" or x is not None})
        else:
            both(lambda x: x.append(w), lambda x: x.append(e), "append(%r)" % e)
    elif op in ("extend", "iadd"):
        es = [r_elem(rng, view) for _ in range(rng.randint(0, 3))]
        ws = [wrapped(rng, view, x) for x in es]
        kind = rng.choice([list, tuple, iter])
        if op == "extend":
            both(lambda x: x.extend(kind(ws)), lambda x: x.extend(es), "extend(%r)" % es)
        else:
            hist.append("+= %r" % es)
            exec("g.%s += ws" % view, dict(g=g, ws=ws))
            model += es
            ctx.count("self_operations")
    elif op == "selfext":
        if n > 40:
            return
        other = getattr(g, view)
        how = rng.choice(["extend", "iadd", "slice"])
        hist.append("%s with itself" % how)
        if how == "extend":
            v.extend(other)
        elif how == "iadd":
            exec("g.%s += v" % view, dict(g=g, v=v))
        else:
            v[len(v):] = other
        model += copy.deepcopy(model)
        ctx.count("self_operations")
        # duplicated elements must not become one: detach them for the model's sake
        setattr(g, view, json.loads(json.dumps([plain(view, x) for x in getattr(g, view)])))
    elif op == "reverse":
        both(lambda x: x.reverse(), lambda x: x.reverse(), "reverse()")
    elif op == "pop":
        i = rng.choice([None, r_index(rng, n)])
        a = () if i is None else (i,)
        got, want, bad, where = both(lambda x: x.pop(*a), lambda x: x.pop(*a), "pop%r" % (a,))
        if not bad:
            ctx.equal(plain(view, got), want, where)
    elif op == "remove":
        x = copy.deepcopy(rng.choice(model)) if model and rng.random() < 0.6 else e
        both(lambda y: y.remove(x), lambda y: y.remove(x), "remove(%r)" % (x,))
    elif op == "clear":
        if rng.random() < 0.3:
            both(lambda x: x.clear(), lambda x: x.clear(), "clear()")
    elif op == "index":
        x = copy.deepcopy(rng.choice(model)) if model and rng.random() < 0.6 else e
        got, want, bad, where = both(lambda y: y.index(x), lambda y: y.index(x), "index(%r)" % (x,))
        ctx.equal(got, want, where)
    elif op in ("count", "contains"):
        x = copy.deepcopy(rng.choice(model)) if model and rng.random() < 0.6 else e
        f = (lambda y: y.count(x)) if op == "count" else (lambda y: x in y)
        got, want, bad, where = both(f, f, "%s %r" % (op, x))
        ctx.equal(got, want, where)
    elif op in ("iter", "reversed"):
        f = (lambda y: list(iter(y))) if op == "iter" else (lambda y: list(reversed(y)))
        got, want, bad, where = both(f, f, op)
        ctx.equal([plain(view, x) for x in got], want, where)
    elif op == "badkey":
        k = rng.choice(["0", None, 1.5])
        both(lambda x: x[k], lambda x: x[k], "[%r]" % (k,))
    elif op == "elem":
        if not model or view == "unit_offsets":
            return
        i = rng.randrange(n)
        how = rng.randrange(4)
        # an element taken out of a slice or met while iterating is the stored one too
        if how == 0:
            lo = rng.randint(0, i)
            x = v[lo:i + 1][-1]
        elif how == 1:
            x = [x for x in v][i]
        else:
            x = v[rng.choice([i, i - n])]
        edit(ctx, rng, view, x, model[i], hist, i)
    elif op == "assign":
        es = [r_elem(rng, view) for _ in range(rng.randint(0, 4))]
        ws = [wrapped(rng, view, x) for x in es]
        kind = rng.choice([list, tuple, iter]) if view != "unit_offsets" or es else list
        hist.append("attribute = %r" % es)
        setattr(g, view, kind(ws))
        model[:] = es
        ctx.count("attribute_assignments")
    elif op == "selfassign":
        hist.append("attribute = itself")
        if rng.random() < 0.5:
            setattr(g, view, getattr(g, view))
        else:
            setattr(g, view, v)
        ctx.count("attribute_assignments")


def check_elem(ctx, view, x, want, where):
    """the attributes of an element view"""
    from fractions import Fraction
    if view == "timelabels":
        tl = want["timelabel"]
        ctx.equal((x.tag, x.count, x.rate, x.drop_frame),
                  (want["tag"], tl["frames_since_midnight"], Fraction(tl["frame_rate_numerator"], tl["frame_rate_denominator"]), tl["drop_frame"]),
                  where + ": element attributes")
    elif view == "components":
        ctx.equal({k: getattr(x, k) for k in want}, want, where + ": element attributes")
    else:
        ctx.equal((x.path, x.pre, x.post), (want["path"], want.get("pre"), want.get("post")), where + ": element attributes")
    ctx.equal({k: x[k] for k in x}, want, where + ": element items")
    ctx.require(len(x) == len(want) and x == want and not (x != want) and set(x) == set(want) and "absent" not in x, where + ": element as a mapping")
    ctx.raises(KeyError, lambda: x["absent"], where + ": absent key")


def edit(ctx, rng, view, x, m, hist, i):
    """edit an element through its live view; m is the model's element"""
    if view == "timelabels":
        k = rng.choice(["tag", "count", "rate", "drop_frame", "item"])
        if k == "tag":
            v = x.tag = m["tag"] = gen.r_str(rng, 16)
        elif k == "count":
            v = m["timelabel"]["frames_since_midnight"] = gen.r_uint(rng, 32)
            x.count = rng.choice([int, numpy.int64, str])(v)
            ctx.require(type(x.count) is int, "type of the count of a time label", got=x.count)
        elif k == "rate":
            v = gen.r_rate(rng)
            x.rate = rng.choice([v, "%d/%d" % (v.numerator, v.denominator)])
            m["timelabel"].update(frame_rate_numerator=v.numerator, frame_rate_denominator=v.denominator)
        elif k == "drop_frame":
            v = m["timelabel"]["drop_frame"] = rng.random() < 0.5
            x.drop_frame = rng.choice([bool, int, numpy.bool_])(v)
            ctx.require(type(x.drop_frame) is bool, "type of the flag of a time label", got=x.drop_frame)
        else:
            v = x["tag"] = m["tag"] = gen.r_str(rng, 16)
            ctx.raises(KeyError, lambda: x.__setitem__("other", 1), "time label given another key")
    elif view == "components":
        k = rng.choice(["width", "height", "stride", "offset", "length"])
        v = m[k] = gen.r_uint(rng, 31)
        if rng.random() < 0.5:
            setattr(x, k, v)
        else:
            x[k] = v
    else:
        k = rng.choice(["path", "pre", "post", "pre", "post"])
        v = gen.r_str(rng) if k == "path" else rng.choice([None, gen.r_json(rng)])
        how = rng.choice(["attr", "item"])
        if v is None:
            if how == "attr":
                setattr(x, k, None)
            elif k in m:
                del x[k]
            else:
                ctx.raises(KeyError, lambda: x.__delitem__(k), "deleting an absent %s" % k)
            m.pop(k, None)
        else:
            if how == "attr":
                setattr(x, k, v)
            else:
                x[k] = v
            m[k] = json.loads(json.dumps(v))
    hist.append("[%d].%s = %r" % (i, k, v))
    check_elem(ctx, view, x, m, "%s after %s" % (view, hist[-1]))
    ctx.count("element_edits")
    ctx.saw(view, "edit", k)
