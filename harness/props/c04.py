"""C04: deduplication inside one batched insertion."""
from harness.props.large import lemma, table  # noqa: F401
from harness.props.hashtab import big, dedupe_replay, random_histories  # noqa: F401

TRACE = "HashTrace"
ASSUMPTIONS = ["priorities are not NaN", "records are compared through the harness's content table",
               "some record types replace their hash methods by colliding ones; results are judged by content only"]


def models(ctx):
    yield dict(name="MCHash", module="MCHash", cfg="MCHash.cfg", emit="TR ", heap="2g")
    yield lemma(ctx)
    if not ctx.quick:
        yield dict(name="MCHash3", module="MCHash", emit="TR ", heap="4g", cfg_text=open_cfg().replace("BatchLen = 3", "BatchLen = 4"))


def open_cfg():
    import os

    from harness import tlc

    with open(os.path.join(tlc.SPEC, "MCHash.cfg")) as fh:
        return fh.read()


def jobs(ctx):
    s = ctx.seed
    out = []
    tr = ctx.put("tr.json", ctx.models["MCHash"]["emitted"])
    kinds = [["U32", 2], ["Mix", 3], ["ConstHash", 2], ["WeakWide", 4], ["Packed", 8], ["Bits", 40]]
    parts = ctx.pick(2, 1)
    for j, (kn, b) in enumerate(kinds[: ctx.pick(4, 6)]):
        out.append(dict(func="dedupe_replay", weight=6, deadline=ctx.pick(40, 800), args=dict(
            transitions=tr, kind=kn, bucket=b, seed=s, part=(j + s) % parts, parts=parts)))
    if not ctx.quick:
        tr3 = ctx.put("tr3.json", ctx.models["MCHash3"]["emitted"])
        for j, (kn, b) in enumerate(kinds[:3]):
            out.append(dict(func="dedupe_replay", weight=9, deadline=1200, args=dict(
                transitions=tr3, kind=kn, bucket=b, seed=s, part=j, parts=3)))
    rk = ["Wide", "WeakMix", "Deep", "WeakWide", "Bits", "Tiny", "Grid", "Packed", "U32", "Nest"]
    for j in range(ctx.pick(5, 20)):
        kn = rk[(j + s) % 10]
        out.append(dict(func="dups", weight=5, deadline=ctx.pick(35, 500), args=dict(
            kind=kn, width=[6, 17, 9, 33, 5][j % 5], histories=ctx.pick(5, 30), calls=ctx.pick(16, 30), seed=s * 50 + j, near=bool(j % 2))))
    out.append(dict(func="dups", weight=5, deadline=ctx.pick(35, 500), args=dict(
        kind="EdgeHash", width=[9, 17][s % 2], histories=ctx.pick(5, 30), calls=ctx.pick(16, 30), seed=s * 50 + 49, near=False)))
    out.append(dict(func="table", weight=7, trace_module="LargeTrace", deadline=ctx.pick(60, 300), args=dict(
        kind=["Wide", "U32", "Grid"][s % 3], n=40000, cap=50000, bucket=[8, 3][s % 2], batch=ctx.pick(70000, 200000), seed=s, prios=True)))
    out.append(dict(func="big", weight=5, args=dict(kind="Mix", cap=500, bucket=4, batch=257, seed=s + 1)))
    return out


def dups(rec, kind, width, histories, calls, seed, near):
    """Wide batches with many duplicate groups, all mask forms and priority types."""
    import random

    from harness import zoo
    from harness.props.hashtab import HT, PRIO_DTYPES, ranks

    rnd = random.Random("dups-%s" % seed)
    k = zoo.kind(kind, 40, seed, near)
    for hist in range(histories):
        if rec.out_of_time():
            return
        d = HT(rec, k, "%s-%s" % (seed, hist))
        d.reset(width=width)
        cur = d.new(80, hist, [2, 8][hist % 2])
        dts = [PRIO_DTYPES[(seed + hist) % len(PRIO_DTYPES)], "float32"]
        for c in range(calls):
            if rec.out_of_time():
                return
            few = rnd.sample(range(k.n), rnd.choice([1, 2, 3, min(width, 12)]))
            xs = [rnd.choice(few) for _ in range(width)]
            form = rnd.choice(["mask", "mask", "mask", "none", "true", "false" if rnd.random() < 0.3 else "mask"])
            p = rnd.choice([0.2, 0.5, 0.9, 0.0])
            valid = {"mask": [rnd.random() < p for _ in range(width)], "none": None, "true": True, "false": False}[form]
            pr = None
            if rnd.random() < 0.7:
                pr = ranks([rnd.randrange(rnd.choice([1, 2, 4])) for _ in range(width)])
            cur2 = d.pinsert(cur, xs, valid, pr, rnd.choice(dts))
            if rnd.random() < 0.5:
                d.plookup(cur2, xs)
            if rnd.random() < 0.6:
                cur = cur2
        d.audit(cur, list(range(min(k.n, 20))), width)
