"""C11: conditional scatter, first true update wins."""
from harness.props import arr
from harness.props.arr import edges, programs, upd_cases  # noqa: F401

TRACE = "ArrTrace"
ASSUMPTIONS = ["tuples of positions are in range; in the one-dimensional form any other position (negative ones too) names nothing"]


def models(ctx):
    cfg = ("SPECIFICATION Spec\nINVARIANTS SameAsLoop Untouched FirstWins Later Wide\nCHECK_DEADLOCK FALSE\n"
           "CONSTANTS\n  N = 3\n  MaxLen = %d\n")
    yield dict(name="MCUpd", module="MCUpd", emit="TR ", heap="4g", cfg_text=cfg % ctx.pick(3, 5))


def jobs(ctx):
    p = ctx.put("cases.json", ctx.models["MCUpd"]["emitted"])
    out = []
    for j in range(ctx.pick(3, 9)):
        out.append(dict(func="upd_cases", weight=5, deadline=ctx.pick(33, 900), args=dict(
            kinds=[arr.KINDS[3 * j % len(arr.KINDS)], arr.KINDS[(3 * j + 1) % len(arr.KINDS)], arr.KINDS[(3 * j + 2) % len(arr.KINDS)]], path=p, count=ctx.pick(1110, 6000), seed=ctx.seed * 100 + j)))
    for j in range(ctx.pick(4, 24)):
        out.append(dict(func="programs", weight=5, deadline=ctx.pick(33, 900), args=dict(
            kinds=[arr.KINDS[(2 * j + ctx.seed) % len(arr.KINDS)], arr.KINDS[(2 * j + 4 + ctx.seed) % len(arr.KINDS)]], families=["upd"] * 8 + ["concat", "transpose", "reshape"],
            programs=ctx.pick(80, 500), steps=ctx.pick(12, 20), seed=ctx.seed * 1000 + j)))
    for j in range(ctx.pick(1, 3)):
        out.append(dict(func="edges", weight=4, deadline=ctx.pick(30, 600), args=dict(
            kinds=[arr.KINDS[(j + ctx.seed) % len(arr.KINDS)], "U32", arr.KINDS[(j + 4 + ctx.seed) % len(arr.KINDS)]], sizes=[256, 255, 257, 128, 129, 127, 1, 2], rounds=ctx.pick(6, 40), seed=ctx.seed * 10 + j)))
    out.append(dict(func="edges", weight=4, deadline=ctx.pick(30, 600), args=dict(kinds=["U32", "Mix"], sizes=[32768, 65536, 32767], rounds=ctx.pick(1, 3), seed=ctx.seed)))
    return out
