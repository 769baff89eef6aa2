"""C20: declared schemas are enforced."""
import random

from harness.props.decl import cases, makes  # noqa: F401

TRACE = "DeclTrace"
ASSUMPTIONS = ["arrays are of dtypes the runtime does not convert (no 64-bit types)",
               "the contents of a record held in a field are checked by that record's own class"]
CFG = "SPECIFICATION Spec\nINVARIANTS KeepsRest OneFill Lengths\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  What = \"%s\"\n  Steps = %d\n"


def models(ctx):
    for w in ("decl", "pack", "derive", "class", "make"):
        yield dict(name=w, module="MCDecl", emit="TR ", heap="3g", cfg_text=CFG % (w, 2))


def jobs(ctx):
    out = []
    for m, k in (("decl", 1), ("pack", 1), ("derive", 2), ("class", 2), ("make", 3)):
        todo = ctx.models[m]["emitted"]
        if m == "derive" and ctx.quick:
            todo = random.Random(ctx.seed).sample(todo, len(todo) // 5)
        p = ctx.put("cases_%s.json" % m, todo)
        for j in range(k):
            out.append(dict(func="cases", weight=4, deadline=ctx.pick(35, 900), args=dict(path=p, seed=ctx.seed * 100 + j, share=[j, k])))
    for j in range(ctx.pick(2, 8)):
        out.append(dict(func="makes", weight=3, deadline=ctx.pick(28, 500), args=dict(seed=ctx.seed * 100 + 40 + j)))
    return out
