"""C17: saving and loading."""
from harness.props.store import histories, long_histories  # noqa: F401

TRACE = "StoreTrace"
ASSUMPTIONS = ["records hold their declared dtypes, values lie within declared widths",
               "classes can be found by module and name when loading",
               "no other file carries the bare name when a record is saved without the .npz ending"]
CFG = ("SPECIFICATION Spec\nINVARIANTS ReadsLast OneClass\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
       "  Stems = {\"a\", \"b\"}\n  Classes = {\"X\", \"Y\"}\n  Values = {%s}\n  MaxLen = %d\n")


def models(ctx):
    yield dict(name="three", module="MCStore", emit="TR ", heap="2g", cfg_text=CFG % ("1, 2", 3))
    yield dict(name="four", module="MCStore", emit="TR ", heap="4g", cfg_text=CFG % ("1, 2", 4))
    if not ctx.quick:
        yield dict(name="five", module="MCStore", emit="TR ", heap="8g", timeout=3000, cfg_text=CFG % ("1", 5))


def jobs(ctx):
    out = []
    for m, k in (("three", 2), ("four", 3), ("five", 5)):
        if m not in ctx.models:
            continue
        p = ctx.put("hist_%s.json" % m, ctx.models[m]["emitted"])
        for j in range(ctx.pick(k, 5)):
            out.append(dict(func="histories", weight=4, deadline=ctx.pick(30, 700), args=dict(path=p, seed=ctx.seed * 100 + j)))
    for j in range(ctx.pick(3, 10)):
        out.append(dict(func="long_histories", weight=3, deadline=ctx.pick(24, 700), args=dict(seed=ctx.seed * 100 + 40 + j)))
    return out
