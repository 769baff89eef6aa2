"""C09: purity and invariance under program transformations."""
from harness.props.transform import compositions  # noqa: F401

TRACE = "TransTrace"
ASSUMPTIONS = ["operations are applied within the capacities of the containers",
               "answers at masked-out and absent positions are not compared"]
CFG = "SPECIFICATION Spec\nINVARIANTS SameMeaning NoLeak\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  NOps = %d\n  MaxOps = %d\n  MaxDepth = %d\n"


def models(ctx):
    yield dict(name="programs", module="MCTransform", emit="TR ", heap="4g", cfg_text=CFG % (3, 5, 3))
    if not ctx.quick:
        yield dict(name="deep", module="MCTransform", emit="TR ", heap="8g", timeout=3000, cfg_text=CFG % (2, 6, 4))


def jobs(ctx):
    out = []
    for m in ("programs", "deep"):
        if m not in ctx.models:
            continue
        p = ctx.put("prog_%s.json" % m, ctx.models[m]["emitted"])
        for w, n in (("stack", 1), ("queue", 2), ("table", 3), ("heap", 3), ("records", 3)):
            for j in range(n):
                kinds = ["U32", "Nest", "Deep", "Mix", "Packed", "Grid", "Bits"] if w != "records" else ["U32", "Nest", "Mix", "Bits", "Grid", "Bits", "Deep"]
                out.append(dict(func="compositions", weight=4, deadline=ctx.pick(40, 800),
                                args=dict(path=p, world=w, kinds=kinds, seed=ctx.seed * 100 + 7 * len(out))))
    return out
