"""C18: record hashes and views."""
from harness.props.hashfn import functions  # noqa: F401

TRACE = "HashFnTrace"
ASSUMPTIONS = ["no NaN contents", "item sizes 1, 2, 4 bytes (no sub-byte or complex dtypes; 64-bit types are off in JAX by default)"]
CFG = ("SPECIFICATION Spec\nINVARIANTS Injective Streams Sizes\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
       "  MaxBytes = %d\n  Alphabet = {%s}\n  MaxLeaves = %d\n  Items = {1,2,4}\n  Counts = {0,1,2,3,5}\n")


def models(ctx):
    yield dict(name="views", module="MCView", emit="TR ", heap="4g", timeout=3000, cfg_text=CFG % (ctx.pick(6, 9), "0, 1", 3))
    if not ctx.quick:
        yield dict(name="ternary", module="MCView", emit="TR ", heap="4g", timeout=3000, cfg_text=CFG % (5, "0, 1, 2", 3))
        yield dict(name="layouts", module="MCView", emit="TR ", heap="4g", timeout=3000,
                   cfg_text="SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  MaxBytes = 60\n  Alphabet = {0}\n  MaxLeaves = 3\n  Items = {1,2,4}\n  Counts = {0,1,2,3,5}\n")


def jobs(ctx):
    p = ctx.put("layouts.json", [t for m in ctx.models for t in ctx.models[m]["emitted"]])
    return [dict(func="functions", weight=3, deadline=ctx.pick(35, 1500), args=dict(path=p, seed=ctx.seed * 100 + j)) for j in range(ctx.pick(4, 7))]
