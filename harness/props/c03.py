"""C03: hash table as a set with permanent addresses."""
from harness.props.large import table  # noqa: F401
from harness.props.hashtab import big, dedupe_replay, impl_replay, random_histories  # noqa: F401

TRACE = "HashTrace"
ASSUMPTIONS = ["records are compared through the harness's content table (byte equality of every field)",
               "bucket sizes up to 255 (the slot index is one byte)",
               "some record types replace their hash methods by colliding ones; results are judged by content only"]


def impl_cfg(B, K, N, limit=None, batch=None, emit=True, minr=0):
    return """CONSTANTS B = %d
 K = %d
 N = %d
 Limit = %d
 MaxBatch = %d
 RoundCap = 0
 MinRounds = %d
 EMIT = %s
SPECIFICATION Spec
INVARIANT Inv
PROPERTY Stable
%s
CHECK_DEADLOCK FALSE
""" % (B, K, N, limit or B * K, batch or N, minr, "TRUE" if emit else "FALSE", "" if emit else "VIEW HistView")


def impl_models(ctx, specs):
    for i, (B, K, N, limit, batch, minr, sim) in enumerate(specs):
        kw = dict(name="HashImpl_B%dK%dN%dL%s" % (B, K, N, limit or B * K), module="HashImpl", cfg_text=impl_cfg(B, K, N, limit, batch, True, minr),
                  emit="TR ", heap="4g", workers=2)
        if sim:
            kw["extra"] = ("-simulate", "num=%d" % sim, "-depth", "200", "-seed", str(ctx.seed))
        yield kw


def models(ctx):
    # (B, K, N, limit, max batch, only behaviours with at least this many rounds, simulate)
    specs = [(4, 1, 3, None, None, 0, 0), (2, 2, 4, None, 3, 0, 0), (1, 3, 3, None, None, 0, 0), (8, 1, 6, None, 6, 2, ctx.pick(3000, 30000)),
             (4, 2, 6, None, 5, 2, ctx.pick(3000, 30000))]
    if not ctx.quick:
        specs += [(4, 1, 4, None, None, 0, 0), (2, 3, 6, None, 6, 0, 0)]
    yield from impl_models(ctx, specs)


def jobs(ctx):
    s = ctx.seed
    out = []
    beh = [(n, ctx.put(n + ".json", m["emitted"])) for n, m in sorted(ctx.models.items())]
    for j, (n, p) in enumerate(beh):
        out.append(dict(func="impl_replay", weight=4, deadline=ctx.pick(35, 500), args=dict(
            behaviours=p, kinds=["Script", "U32"] if j % 2 else ["Script", "Nest"], limit=ctx.pick(120, 4000), width=6, seed=s + j)))
    cfgs = [[12, 2, None, None], [9, 8, None, None], [16, None, None, None], [7, 1, 1, None], [30, 40, None, None], [6, 3, 1, None], [40, 5, 3, None]]
    kinds = ["Mix", "Grid", "Nest", "Packed", "Wide", "Deep", "U32", "Bits", "Tiny"]
    for j in range(ctx.pick(5, 21)):
        kn = kinds[(2 * j + s) % 9]
        out.append(dict(func="random_histories", weight=6, deadline=ctx.pick(35, 500), args=dict(
            kinds=[kn], configs=[cfgs[(2 * j) % 7], cfgs[(2 * j + 3) % 7]], width=5, histories=ctx.pick(8, 40), steps=45,
            seed=s * 100 + j, near=bool(j % 2))))
    for j, kn in enumerate(["WeakWide", "WeakMix", "ConstHash", "EdgeHash"]):
        out.append(dict(func="random_histories", weight=6, deadline=ctx.pick(35, 500), args=dict(
            kinds=[kn], configs=[[12, 3, 1, None], [10, 2, None, None]], width=5, histories=ctx.pick(6, 40), steps=45, seed=s * 100 + 50 + j,
            near=(kn != "ConstHash"))))
    out.append(dict(func="table", weight=7, trace_module="LargeTrace", deadline=ctx.pick(60, 300), args=dict(
        kind=["U32", "Wide", "Nest", "Deep"][s % 4], n=70000, cap=ctx.pick(90000, 200000), bucket=[2, 40, 4][s % 3], batch=ctx.pick(70000, 140000), seed=s)))
    out.append(dict(func="big", weight=5, args=dict(kind="Nest", cap=ctx.pick(600, 3000), bucket=8, batch=128, seed=s)))
    return out
