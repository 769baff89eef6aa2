"""C12: the duplicate filter."""
import json
import random

import numpy as np

from harness import zoo
from harness.props.large import filters, lemma  # noqa: F401
from harness.props.pq import DTYPES, INF, key_table

TRACE = "UniqueTrace"
ASSUMPTIONS = ["costs are finite or +infinity (no NaN)", "records are told apart by the bytes of their fields (NaN and signed zeros aside)"]
KINDS = ["Wide", "Mix", "U32", "Deep", "Packed", "Nest", "Grid", "Bits", "Scal"]


def models(ctx):
    cfg = ("SPECIFICATION Spec\nINVARIANTS MatchesFold OnePerRecord MatchesImpl Irrelevant\nCHECK_DEADLOCK FALSE\n"
           "CONSTANTS\n  MaxLen = %d\n  Recs = {%s}\n  Costs = {%s}\n")
    yield dict(name="three", module="MCUnique", emit="TR ", heap="4g", cfg_text=cfg % (3, "1, 2, 3", "0, 1, 1000000"))
    yield lemma(ctx)
    if not ctx.quick:
        yield dict(name="four", module="MCUnique", emit="TR ", heap="6g", timeout=3000, cfg_text=cfg % (4, "1, 2, 3", "0, 1, 1000000"))
        yield dict(name="five", module="MCUnique", emit="TR ", heap="6g", timeout=3000, cfg_text=cfg % (5, "1, 2", "0, 1000000"))


def costs_of(ranks, keys, dt):
    return np.array([np.inf if r == INF else keys[r] for r in ranks], np.float64).astype(dt)


def cases(rec, kinds, path, count, seed):
    """Every case of the model, all of one length in one compiled and mapped call, some alone and uncompiled."""
    import jax
    import jax.numpy as jnp
    from xtructure import numpy as xnp

    with open(path) as fh:
        allc = json.load(fh)
    rnd = random.Random(seed)
    for j, name in enumerate(kinds):
        kind = zoo.kind(name, 32, seed, near=j % 2 == 0)
        for n in sorted({len(c["x"]) for c in allc}):
            cs = [c for c in allc if len(c["x"]) == n]
            rnd.shuffle(cs)
            cs = cs[:count]
            perm = [0] + rnd.sample(range(1, 32), 3) if rnd.random() < 0.5 else rnd.sample(range(32), 4)
            x = np.array([[perm[i] for i in c["x"]] for c in cs])
            valid = np.array([c["valid"] for c in cs])
            cost = np.array([c["cost"] for c in cs], np.float64)
            cost = np.where(cost == INF, np.inf, cost).astype(np.float32)
            rec.reset(kind=name, n=n, how="mapped")
            rec.pending("unique_mask mapped n=%d %s" % (n, name))
            f = jax.jit(jax.vmap(lambda r, v, q: xnp.unique_mask(r, key=q, filled=v, return_index=True, return_inverse=True)))
            r, err = rec.call(lambda: [np.asarray(a) for a in f(kind.enc(x), jnp.asarray(valid), jnp.asarray(cost))])
            for i, c in enumerate(cs):
                if err:
                    rec.ev("unique", x=c["x"], valid=c["valid"], cost=c["cost"], err=err, mask=[])
                    break
                rec.ev("unique", x=c["x"], valid=c["valid"], cost=c["cost"], err="", mask=r[0][i], index=r[1][i], inverse=r[2][i], size=n, fill=n)
            if rec.out_of_time():
                return


def batches(rec, kinds, rounds, seed, sizes, near):
    import jax
    import jax.numpy as jnp
    from xtructure import numpy as xnp
    from xtructure.core.xtructure_numpy.dataclass_ops.unique_ops import unique_mask as direct

    rnd = random.Random(seed)
    compiled = {}
    dtypes = rnd.sample(DTYPES + ["int32"], 2)
    for t in range(rounds):
        if rec.out_of_time():
            return
        name = kinds[t % len(kinds)]
        kind = zoo.kind(name, 64, seed + t % 3, near=near)
        dtype = rnd.choice([dtypes[0], dtypes[-1]])
        keys, dt = key_table(rnd, 40, "float32" if dtype == "int32" else dtype, "small" if dtype == "int32" else rnd.choice(["small", "negative", "extreme", "tight"]))
        if dtype == "int32":
            keys, dt = sorted({int(k * 4) for k in keys}), np.dtype(np.int32)
        rec.reset(kind=name, dtype=dtype)
        for _ in range(14):
            n = rnd.choice(sizes)
            pool = rnd.sample(range(kind.n), rnd.randint(1, min(kind.n, max(1, n))) if rnd.random() < 0.7 else min(3, kind.n))
            ids = [rnd.choice(pool) for _ in range(n)]
            valid = None if rnd.random() < 0.4 else [rnd.random() < rnd.choice([0.2, 0.6, 0.95]) for _ in range(n)]
            cost = None
            if rnd.random() < 0.7:
                few = rnd.sample(range(len(keys)), rnd.choice([1, 2, 5, len(keys)]))
                cost = [INF if dtype != "int32" and rnd.random() < 0.15 else rnd.choice(few) for _ in range(n)]
            want_i = rnd.random() < 0.6
            want_v = want_i and rnd.random() < 0.8
            kw = {}
            if want_i:
                kw["return_index"] = True
            if want_v:
                kw["return_inverse"] = True
            fn, size, fill = xnp.unique_mask, -1, 0
            x = ids
            if rnd.random() < 0.25:
                kw["batch_len"] = n
            if name == "U32" and rnd.random() < 0.4:
                kw["key_fn"] = KEYFNS[t % 2]
                x = (kind.table["x"][np.asarray(ids, int)] & (3 if t % 2 == 0 else 0xFF)).tolist()
            jit = rnd.random() < 0.5
            if want_i and rnd.random() < 0.3:
                fn, size = direct, rnd.choice([n, max(1, n - 1), n + 2])
                kw["size"] = size
                if rnd.random() < 0.7:
                    fill = kw["fill_value"] = rnd.choice([n, 77])
            elif want_i and jit:
                size = fill = n
            if n == 0:
                jit, size, fill, fn = False, -1, 0, xnp.unique_mask
                kw.pop("size", None)
                kw.pop("fill_value", None)
            rec.pending("unique_mask %s %s n=%d" % (name, kw, n))

            def go():
                r = kind.enc(np.asarray(ids, np.int64).reshape(n))
                args = dict()
                if cost is not None:
                    args["key"] = jnp.asarray(costs_of(cost, keys, dt))
                if valid is not None:
                    args["filled"] = jnp.asarray(np.array(valid, bool).reshape(n))
                f = lambda r, a: fn(r, **a, **kw)  # noqa: E731
                if jit:
                    ck = (name, dtype, n, tuple(sorted(args)), fn is direct, tuple(sorted((k, str(v)) for k, v in kw.items())))
                    f = compiled.setdefault(ck, jax.jit(f))
                out = f(r, args)
                return [np.asarray(a) for a in (out if isinstance(out, tuple) else (out,))]

            r, err = rec.call(go)
            ev = dict(x=x, valid=[True] * n if valid is None else valid, cost=[0] * n if cost is None else cost, err=err, mask=[], jit=jit)
            if not err:
                ev["mask"] = r[0].tolist()
                if want_i:
                    ev.update(index=r[1].tolist(), size=size, fill=fill)
                if want_v:
                    ev["inverse"] = r[2].tolist()
            rec.ev("unique", **ev)


KEYFNS = [lambda r: r.x & 3, lambda r: (r.x & 0xFF).reshape(1)]


def jobs(ctx):
    out = []
    for m in ctx.models:
        if m == "MCLarge":
            continue
        p = ctx.put("cases_%s.json" % m, ctx.models[m]["emitted"])
        for j in range(ctx.pick(2, 7)):
            out.append(dict(func="cases", weight=4, deadline=ctx.pick(40, 900), args=dict(
                kinds=[KINDS[(2 * j) % 9], KINDS[(2 * j + 1) % 9]], path=p, count=ctx.pick(2500, 10 ** 6), seed=ctx.seed + j)))
    out.append(dict(func="filters", weight=7, trace_module="LargeTrace", deadline=ctx.pick(60, 300), args=dict(
        kind=["Wide", "U32", "Nest"][ctx.seed % 3], n=30000, batch=ctx.pick(70000, 300000), seed=ctx.seed, rounds=ctx.pick(2, 8))))
    sizes = [[1, 2, 3, 5], [8, 13, 2, 0], [40, 7], [200, 33]]
    for j in range(ctx.pick(5, 28)):
        out.append(dict(func="batches", weight=5, deadline=ctx.pick(33, 900), args=dict(
            kinds=[KINDS[(j + ctx.seed) % 9], KINDS[(j + 3 + ctx.seed) % 9]] + (["Wide"] if j % 2 else []), rounds=ctx.pick(60, 1500),
            seed=ctx.seed * 100 + j, sizes=sizes[j % 4], near=[True, "alpha", False][j % 3])))
    return out
