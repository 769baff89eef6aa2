"""C15: whole-record bit packing."""
from harness.props.bits import layouts  # noqa: F401

TRACE = "PackTrace"
ASSUMPTIONS = ["values lie within the declared widths", "record leaves hold their declared dtypes",
               "nested records are scalar fields (the code refuses others)"]
CFG = ("SPECIFICATION Spec\nINVARIANTS RoundTrip Size MatchesImpl NoOverlap FieldRoundTrip FieldSize\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
       "  WordBits=%d\n  ByteBits=%d\n  Exhaustive=%s\n  Families={%s}\n  MaxBits=%d\n  PairWidths={%s}\n")
SOME = "1,2,3,5,7,8,9,12,15,16,17,24,31,32"
ALL = ",".join(map(str, range(1, 33)))


def models(ctx):
    yield dict(name="exhaustive", module="MCBitPack", heap="4g", timeout=3000, cfg_text=CFG % (8, 2, "TRUE", "", ctx.pick(7, 10), "1"))
    yield dict(name="layouts", module="MCBitPack", emit="TR ", heap="4g", timeout=3000,
               cfg_text=CFG % (32, 8, "FALSE", '"singles","pairs"', 0, ctx.pick(SOME, ALL)))
    if not ctx.quick:
        yield dict(name="triples", module="MCBitPack", emit="TR ", heap="4g", timeout=3000, cfg_text=CFG % (32, 8, "FALSE", '"triples"', 0, "1"))


def jobs(ctx):
    out = []
    for m in ctx.models:
        if not ctx.models[m]["emitted"]:
            continue
        p = ctx.put("lay_%s.json" % m, ctx.models[m]["emitted"])
        for j in range(ctx.pick(4, 7)):
            out.append(dict(func="layouts", weight=4, deadline=ctx.pick(28, 900), args=dict(path=p, count=100000, seed=ctx.seed * 100 + j)))
    for j in range(ctx.pick(3, 7)):
        out.append(dict(func="layouts", weight=3, deadline=ctx.pick(28, 900), args=dict(path="", count=100000, seed=ctx.seed * 100 + 50 + j, random_layouts=True)))
    out.append(dict(func="layouts", weight=3, deadline=ctx.pick(28, 300), args=dict(path="", count=ctx.pick(2, 12), seed=ctx.seed * 100 + 90, long=True)))
    return out
