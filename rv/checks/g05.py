"""G05: deferred grain data is correct under every interleaving of async readers."""
import asyncio
import json

from .. import gen, gsfio, refgsf

ID = "G05"
LEVEL = "exploration"
RULE = ("A case opens one file of distinguishable grains asynchronously over a source whose every read yields to the event loop a random "
        "number of times (or a real file, memory or wrapper source), and lets a random schedule of tasks await grains - several times "
        "each, in any order, from inside and outside the decoding loop, some cancelled half way - while the loop goes on decoding, or is "
        "itself cancelled in the middle of a step. The sources include one that is slow to read in its thread. "
        "The monitor compares what each await returned with that grain's own bytes, the decoded sequence with the file, and the grains "
        "after the context was left. Distinct = hash of the observed order of starts and ends of awaits and decoding steps.")
FLOORS = dict(awaits_judged=4000, grains_judged=2000, exits_judged=300, overlapping_awaits=500, decoding_abandoned=60, joined_files=100)
SOURCES = ["alagging", "alagging", "alagging", "abytesio", "afilewrap_bytesio", "abytesiowrap", "afilewrap_file",
           "afilewrap_slow"]


def plan(ctx):
    n = ctx.n(110, 4000)
    return [("%s-%d-%d" % (s, j, i), dict(source=s)) for j, s in enumerate(SOURCES) for i in range(n)]


def case(ctx, rng, key, p):
    n = rng.randint(1, 9)
    f = refgsf.random_file(rng, ngrains=n, nsegs=rng.randint(1, 3))
    for i, (_, d) in enumerate(f["grains"]):
        if d["type"] != "event":
            d["data"] = b"%d:" % i + gen.rbytes(rng, rng.choice([0, 1, 50, 3000]))
    knobs = lambda: refgsf.Knobs(rng, rng.choice([0, 0, 0.3]))
    if rng.random() < 0.3 and n > 1:
        # several files, one after the other
        cut = rng.randint(0, n)
        raw = b"".join(refgsf.file_bytes(dict(f, grains=part), knobs(), terminator=rng.random() < 0.7)
                       for part in (f["grains"][:cut], f["grains"][cut:]))
        ctx.count("joined_files")
    else:
        raw = refgsf.file_bytes(f, knobs())
    loading = rng.choice(["ALWAYS_DEFER_LOAD_IF_POSSIBLE"] * 3 + ["ALWAYS_LOAD_DEFER_IF_POSSIBLE"])
    trace = []
    gsfio.run(scenario(ctx, rng, f, raw, p["source"], loading, trace))
    ctx.saw(tuple(trace))
    ctx.sample(dict(source=p["source"], loading=loading, grains=n, trace=trace[:40]))


def own(d):
    return refgsf.grain_data(d)


async def scenario(ctx, rng, f, raw, source, loading, trace):
    from mediagrains.gsf import GSFDecoder
    src, cleanup = gsfio.async_source(source, raw, rng)
    grains, tasks = [], []
    finished = set()       # indices whose data was delivered to someone before exit
    wants = [d for _, d in f["grains"]]
    active = [0]
    abandon_after = rng.choice([None] * 4 + [rng.randint(0, len(wants))])
    stop_after = rng.choice([None] * 4 + [rng.randint(0, len(wants))])

    async def get(i, how):
        for _ in range(rng.choice([0, 0, 1, 2, 5])):
            await asyncio.sleep(0)
        trace.append("s%d" % i)
        active[0] += 1
        if active[0] > 1:
            ctx.count("overlapping_awaits")
        try:
            g = grains[i]
            if how == 0:
                r = await g
            elif how == 1:
                async with g as gg:
                    r = gg.data
            else:
                r = await asyncio.ensure_future(later(g))
        finally:
            active[0] -= 1
            trace.append("e%d" % i)
        check(i, r)
        check(i, g.data)
        finished.add(i)

    async def later(g):
        return await g

    def check(i, r):
        d = wants[i]
        if d["type"] == "event":
            gen_payload(ctx, r, d, "awaited event grain %d" % i)
        else:
            if gen.data_bytes(r) != own(d):
                ctx.fail("await of grain %d returned other bytes than its own" % i, got=r, want=own(d), trace=trace[-40:])
        ctx.count("awaits_judged")

    try:
        async with GSFDecoder(file_data=src) as dec:
            decoding = dec.grains(loading_mode=gsfio.mode(loading)).__aiter__()
            while True:
                step = asyncio.ensure_future(decoding.__anext__())
                if len(grains) == abandon_after:
                    await asyncio.sleep(rng.choice([0, 0.0005, 0.001]) if source == "afilewrap_slow" else 0)
                    step.cancel()
                try:
                    g, lid = await step
                except StopAsyncIteration:
                    ctx.equal(len(grains), len(wants), "number of grains decoded")
                    break
                except asyncio.CancelledError:
                    ctx.require(len(grains) == abandon_after, "decoding was cancelled by nobody", trace=trace[-40:])
                    trace.append("abandoned")
                    ctx.count("decoding_abandoned")
                    break
                i = len(grains)
                trace.append("d%d" % i)
                ctx.require(i < len(wants), "more grains decoded than the file holds", trace=trace[-40:])
                d = wants[i]
                ctx.equal(lid, f["grains"][i][0], "segment of grain %d" % i)
                x = gen.diff(gen.observe(g, data=False, creation=False), gen.expected(d, data=False, creation=False))
                if x:
                    ctx.fail("grain %d differs in %s" % (i, x), trace=trace[-40:])
                if d["type"] != "event":
                    ctx.equal(g.length, len(own(d)), "reported length of deferred grain %d" % i)
                else:
                    held = g.data
                    loaded = json.loads(held) == gen.event_payload(d)
                    ctx.require(g.length == (len(held) if loaded else len(own(d))), "reported length of %s event grain %d" %
                                ("loaded" if loaded else "deferred", i), got=g.length, held=held, stored=own(d))
                    ctx.count("loaded_events" if loaded else "deferred_events")
                ctx.count("grains_judged")
                grains.append(g)
                for _ in range(rng.choice([0, 0, 1, 2])):
                    j = rng.randrange(len(grains))
                    tasks.append(asyncio.ensure_future(get(j, rng.randrange(3))))
                if tasks and rng.random() < (0.4 if source == "afilewrap_slow" else 0.15):
                    await asyncio.sleep(rng.choice([0, 0.0005, 0.001]) if source == "afilewrap_slow" else 0)
                    rng.choice(tasks).cancel()
                k = rng.random()
                if k < 0.2:
                    await get(i, 0)
                elif k < 0.4:
                    await asyncio.sleep(0)
                if stop_after is not None and len(grains) >= stop_after:
                    break
            # concurrently, everything repeatedly
            if grains and rng.random() < 0.6:
                idx = [rng.randrange(len(grains)) for _ in range(rng.randint(1, 2 * len(grains)))]
                await asyncio.gather(*(get(i, rng.randrange(3)) for i in idx))
            done = []
            if tasks and rng.random() < 0.7:
                res = await asyncio.gather(*tasks, return_exceptions=True)
                done = list(zip(tasks, res))
                tasks = []
            pending = [t for t in tasks if not t.done()]
            for t in pending:
                t.cancel()
            res = await asyncio.gather(*tasks, return_exceptions=True)
            for t, r in done + list(zip(tasks, res)):
                if isinstance(r, BaseException) and not isinstance(r, asyncio.CancelledError):
                    raise r
            trace.append("exit")
        ctx.count("exits_judged")
        for i, g in enumerate(grains):
            d = wants[i]
            if d["type"] == "event":
                gen_payload(ctx, g.data, d, "event grain %d after exit" % i)
                continue
            loaded = own(d)
            if i in finished or loading == "ALWAYS_LOAD_DEFER_IF_POSSIBLE":
                ctx.equal(gen.data_bytes(g.data), loaded, "data of grain %d after leaving the context" % i)
                ctx.equal(gen.data_bytes(await g), loaded, "awaiting loaded grain %d after leaving the context" % i)
                ctx.equal(g.length, len(loaded), "length of loaded grain %d after leaving the context" % i)
            else:
                a = gen.data_bytes(g.data)
                ctx.require(a in (b"", loaded), "grain %d holds other data than its own after leaving the context" % i, got=a)
                b = gen.data_bytes(await g)
                ctx.require(b == a, "awaiting an unloaded grain %d after the context was left gave data" % i, got=b)
                if not any_cancel(trace, i):
                    ctx.equal(a, b"", "data of grain %d that nobody awaited" % i)
    finally:
        for t in tasks:
            t.cancel()
        cleanup()


def any_cancel(trace, i):
    return "s%d" % i in trace


def gen_payload(ctx, r, d, what):
    import json
    ctx.equal(json.loads(bytes(r)), json.loads(json.dumps(gen.event_payload(d))), what)
    ctx.count("awaits_judged")
