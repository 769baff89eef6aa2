"""Strict selection, tolerant comparison, comparison across classes (C21): records events, judges nothing."""
import json
import random

import jax
import jax.numpy as jnp
import numpy as np

from harness import zoo
from xtructure import FieldDescriptor as FD
from xtructure import numpy as xnp
from xtructure import xtructure_dataclass

INF, NINF, NAN = 100000000, -100000000, 99999999


def _classes():
    @xtructure_dataclass
    class Part:
        p: FD.scalar(dtype=jnp.int8)
        q: FD.scalar(dtype=jnp.bfloat16)

    @xtructure_dataclass
    class Sc:
        a: FD.scalar(dtype=jnp.float32)
        n: FD.scalar(dtype=Part)
        u: FD.scalar(dtype=jnp.uint8)

    @xtructure_dataclass
    class Vec:
        p: FD.tensor(dtype=jnp.int32, shape=(2,))
        h: FD.tensor(dtype=jnp.float16, shape=(2,))

    @xtructure_dataclass
    class Te:
        a: FD.tensor(dtype=jnp.float32, shape=(2,))
        n: FD.scalar(dtype=Vec)
        b: FD.tensor(dtype=jnp.uint16, shape=(2,))
        z: FD.tensor(dtype=jnp.float32, shape=(2,))

    @xtructure_dataclass
    class One:
        x: FD.tensor(dtype=jnp.float32, shape=(3,))

    @xtructure_dataclass
    class Two:
        x: FD.scalar(dtype=jnp.int32)
        y: FD.scalar(dtype=jnp.float32)

    return [Sc, Te, One, Two]


CLASSES, TWINS = _classes(), _classes()
OTHER_TYPE = {"float32": jnp.float16, "float16": jnp.float32, "bfloat16": jnp.float32, "int8": jnp.int16, "uint8": jnp.int8,
              "int32": jnp.int16, "uint16": jnp.uint32}


def fields(cls):
    """[(leaf name, dtype, intrinsic shape)] in the order of the tree's leaves."""
    return [(n, dt, sh) for n, dt, sh, _ in zoo.schema(cls)]


def number(v, unit=1.0):
    return {INF: np.inf, NINF: -np.inf, NAN: np.nan}.get(v, v * unit)


def arrays(cls, batch, vals, unit=1.0):
    """vals: per leaf a flat list of logged numbers -> arrays by leaf name."""
    out = {}
    for (n, dt, sh), v in zip(fields(cls), vals):
        a = np.array([number(x, unit) for x in v], np.float64).reshape(tuple(batch) + tuple(sh))
        out[n] = jnp.asarray(a.astype(dt))
    return out


def logged(rec, unit=1.0, types=True):
    out = []
    for n, a in zoo.leaves_of(rec):
        a = np.asarray(a)
        v = a.astype(np.float64).reshape(-1)
        d = [bool(x) for x in a.reshape(-1)] if a.dtype == np.bool_ else [
            NAN if np.isnan(x) else INF if x == np.inf else NINF if x == -np.inf else int(round(x / unit)) for x in v]
        f = dict(s=list(a.shape), d=d)
        if types:
            f["t"] = str(a.dtype)
        out.append(f)
    return out


def size_of(batch, sh):
    return int(np.prod(tuple(batch) + tuple(sh), dtype=int))


def rand_vals(rnd, cls, batch):
    out = []
    for n, dt, sh in fields(cls):
        lo, hi = (0, 120) if np.issubdtype(dt, np.unsignedinteger) else (-120, 120)
        out.append([rnd.randint(lo, hi) for _ in range(size_of(batch, sh))])
    return out


def squash(a, rnd, deeper):
    """An array of other rank or shape, mostly one that broadcasting would accept."""
    if deeper:
        return a[None]
    if a.ndim == 0:
        return jnp.stack([a, a])
    return rnd.choice([lambda: a[:1], lambda: a.reshape(-1)[0], lambda: jnp.concatenate([a, a[:1]]), lambda: a[..., :1]])() if a.size else a[None]


def strict_one(rec, rnd, case, bits=None):
    i = rnd.randrange(len(CLASSES))
    cls = CLASSES[i]
    fs = fields(cls)
    batch = rnd.choice([(), (1,), (3,), (5,)] if case["flat"] else [(2, 3), (1, 2), (2, 1, 2), (0,)])
    xv, yv = rand_vals(rnd, cls, batch), rand_vals(rnd, cls, batch)
    xa, ya = arrays(cls, batch, xv), arrays(cls, batch, yv)
    f = fs[case["field"] % len(fs)][0]
    defect, form = case["defect"], case["form"]
    ycls = ccls = cls
    if defect == "y_class":
        ycls = TWINS[i]
    elif defect == "y_type":
        ya[f] = ya[f].astype(OTHER_TYPE[str(ya[f].dtype)])
    elif defect in ("y_shape", "y_rank"):
        ya[f] = squash(ya[f], rnd, defect == "y_rank")
    shared = rnd.random() < 0.3
    full = {n: jnp.asarray(np.array([rnd.random() < 0.5 for _ in range(size_of(batch, sh))], bool).reshape(tuple(batch) + tuple(sh))) for n, _, sh in fs}
    if form == "array":
        c = full[fs[0][0]]
        if defect in ("cond_shape", "cond_rank"):
            c = squash(c, rnd, defect == "cond_rank")
        ca = {n: c for n, *_ in fs}
        cond = c if rnd.random() < 0.7 else np.asarray(c)
    else:
        ca = dict(full)
        if shared:
            ca = {n: full[fs[0][0]] if full[n].shape == full[fs[0][0]].shape else full[n] for n in full}
        if defect in ("cond_shape", "cond_rank"):
            ca[f] = squash(ca[f], rnd, defect == "cond_rank")
        if defect == "cond_class":
            ccls = TWINS[i]
        cond = zoo.build(ccls, ca)
    x, y = zoo.build(cls, xa), zoo.build(ycls, ya)
    rec.pending("where_no_broadcast %s %s" % (cls.__name__, case))
    jitted = rnd.random() < 0.25

    def go():
        fn = jax.jit(xnp.where_no_broadcast) if jitted else xnp.where_no_broadcast
        r = fn(cond, x, y)
        if type(r) is not cls:
            raise zoo.Malformed("result is a %s" % type(r))
        return logged(r)

    out, err = rec.call(go)
    cl = [dict(s=list(np.asarray(ca[n]).shape), d=np.asarray(ca[n]).reshape(-1).tolist()) for n, *_ in fs]
    rec.ev("strict", cls=cls.__name__, form=form, defect=defect, batch=list(batch), same=ycls is cls, csame=ccls is cls, c=cl, x=logged(x), y=logged(y),
           jit=jitted, err=err, out=out if not err else [])


def strict(rec, path, seed, part, parts):
    with open(path) as fh:
        cases = [c for c in json.load(fh) if c["op"] == "strict"]
    rnd = random.Random("strict-%s" % seed)
    cases = cases[part::parts]
    while not rec.out_of_time():
        rnd.shuffle(cases)
        rec.reset(what="strict")
        for c in cases:
            strict_one(rec, rnd, c)
            if rec.out_of_time():
                return


def is_close(p, A, R, nan):
    """Steering only."""
    a, b = p
    if NAN in p:
        return nan and a == b
    if {a, b} & {INF, NINF}:
        return a == b
    return 8 * abs(a - b) <= A + R * abs(b)


def fits(dt, v):
    if v in (INF, NINF, NAN):
        return not np.issubdtype(dt, np.integer)
    return v >= 0 or not np.issubdtype(dt, np.unsignedinteger)


def compare(rec, rnd, op, cls, batch, pairs, unit, kw, extra, which):
    xa, ya = [arrays(cls, batch, [[p[s] for p in f] for f in pairs], unit) for s in (0, 1)]
    x, y = zoo.build(cls, xa), zoo.build(cls, ya)
    rec.pending("%s %s %s" % (which, cls.__name__, kw))
    jitted, method = rnd.random() < 0.2, rnd.random() < 0.3

    def call(x, y):
        return getattr(x, which)(y, **kw) if method and hasattr(x, which) else getattr(xnp, which)(x, y, **kw)

    def go():
        r = (jax.jit(call) if jitted else call)(x, y)
        if which == "allclose":
            return bool(r)
        if type(r) is not cls:
            raise zoo.Malformed("result is a %s" % type(r))
        return logged(r, types=False)

    r, err = rec.call(go)
    more = {} if err else {"res" if which == "allclose" else "out": r}
    rec.ev(op, cls=cls.__name__, which=which, x=logged(x, unit, False), y=logged(y, unit, False), jit=jitted, method=method, err=err, **extra, **more)


def close(rec, path, seed, part, parts):
    with open(path) as fh:
        cases = [c for c in json.load(fh) if c["op"] == "close"]
    groups = {}
    for c in cases:
        groups.setdefault((c["A"], c["R"], c["nan"]), []).append((c["a"], c["b"]))
    rnd = random.Random("close-%s" % seed)
    keys = sorted(groups)[part::parts]
    while not rec.out_of_time():
        rnd.shuffle(keys)
        for A, R, nan in keys:
            if rec.out_of_time():
                return
            rec.reset(what="close", A=A, R=R)
            kw = dict(atol=A / 8.0, rtol=R / 8.0)
            if nan or rnd.random() < 0.5:
                kw["equal_nan"] = nan
            deck = list(groups[A, R, nan])
            rnd.shuffle(deck)
            good = [p for p in deck if is_close(p, A, R, nan)]
            for cls in rnd.sample(CLASSES, 2):
                fs = fields(cls)
                batch = rnd.choice([(), (3,), (2, 4), (12,)])
                pairs = []
                for _, dt, sh in fs:
                    ok = [p for p in deck if fits(dt, p[0]) and fits(dt, p[1])]
                    pairs.append([ok[k % len(ok)] for k in range(size_of(batch, sh))])
                compare(rec, rnd, "close", cls, batch, pairs, 1.0, kw, dict(A=A, R=R, nan=nan), "isclose")
                pairs = []
                for _, dt, sh in fs:
                    ok = [p for p in good if fits(dt, p[0]) and fits(dt, p[1])]
                    pairs.append([rnd.choice(ok) for _ in range(size_of(batch, sh))])
                if rnd.random() < 0.7 and any(pairs):
                    k = rnd.randrange(len(fs))
                    ok = [p for p in deck if fits(fs[k][1], p[0]) and fits(fs[k][1], p[1])]
                    pairs[k][rnd.randrange(len(pairs[k]))] = rnd.choice(ok)
                compare(rec, rnd, "close", cls, batch, pairs, 1.0, kw, dict(A=A, R=R, nan=nan), "allclose")


def defaults(rec, seed, rounds):
    rnd = random.Random("defaults-%s" % seed)
    for _ in range(rounds):
        if rec.out_of_time():
            return
        rec.reset(what="defaults")
        for cls in CLASSES:
            fs = fields(cls)
            batch = rnd.choice([(), (3,), (2, 2), (7,)])
            for op, unit in (("default", 2.0 ** -20), ("zero", 2.0 ** -27)):
                for which in ("isclose", "allclose"):
                    wild = which == "isclose"

                    def pair(dt):
                        if op == "zero":
                            return (rnd.choice([0, 1, -1, 2, -2, 3] if wild else [0, 1, -1, 0, 1, -1, 0, 0, 0, 0, 2]), 0) if dt == np.float32 else (0, 0)
                        if dt != np.float32:
                            v = rnd.randint(0, 8) * 2 ** 20
                            return v, v
                        if rnd.random() < (0.3 if wild else 0.03):
                            return rnd.choice([(NAN, NAN), (NAN, 2 ** 20), (INF, INF), (INF, NINF), (2 ** 20, INF), (NINF, NINF)])
                        b, d = rnd.choice([(2 ** 20, 10), (2 ** 20, 5), (2 ** 20, 0), (2 ** 21, 20), (-(2 ** 20), 10)] + (
                            [(2 ** 20, 11), (2 ** 20, 16), (2 ** 21, 21), (-(2 ** 20), 11), (-(2 ** 21), 40)] if wild or rnd.random() < 0.05 else []))
                        return b + rnd.choice([1, -1]) * d, b

                    pairs = [[pair(dt) for _ in range(size_of(batch, sh))] for _, dt, sh in fs]
                    compare(rec, rnd, op, cls, batch, pairs, unit, {}, {}, which)
            # records of other classes and plain objects
            i = CLASSES.index(cls)
            vals = rand_vals(rnd, cls, batch)
            x = zoo.build(cls, arrays(cls, batch, vals))
            other = rnd.choice(["twin", "twin", "class", "none", "int", "text", "tuple"])
            j = rnd.choice([k for k in range(len(CLASSES)) if k != i])
            y = {"twin": lambda: zoo.build(TWINS[i], arrays(cls, batch, vals)), "class": lambda: zoo.build(CLASSES[j], arrays(CLASSES[j], batch, rand_vals(rnd, CLASSES[j], batch))),
                 "none": lambda: None, "int": lambda: 3, "text": lambda: "x", "tuple": lambda: (1, 2)}[other]()
            rec.pending("%s == %s" % (cls.__name__, other))
            r, err = rec.call(lambda: (bool(x == y), bool(x != y)))
            rec.ev("across", cls=cls.__name__, other=other, err=err, eq=not err and r[0], ne=not err and r[1])


TYPES = ["bool", "int8", "uint8", "int16", "uint16", "int32", "uint32", "float16", "bfloat16", "float32"]


def types(rec, seed, rounds):
    """Conversion, and questions about element types, of whole records."""
    rnd = random.Random("types-%s" % seed)
    for _ in range(rounds):
        if rec.out_of_time():
            return
        rec.reset(what="types")
        for cls in CLASSES:
            fs = fields(cls)
            batch = rnd.choice([(), (3,), (2, 2), (0,)])
            to = rnd.choice(TYPES)
            lo = 0 if to.startswith("u") else -120
            vals = [[max(lo, v) for v in f] if rnd.random() < 0.5 else [max(lo, v) * rnd.choice([0, 1]) for v in f] for f in rand_vals(rnd, cls, batch)]
            x = zoo.build(cls, arrays(cls, batch, vals))
            form = rnd.choice([lambda t: getattr(jnp, t if t != "bool" else "bool_"), lambda t: jnp.dtype(t)])
            rec.pending("astype %s" % to)

            def go():
                kw = rnd.choice([{}, {}, dict(copy=True), dict(copy=False)])
                r = x.astype(form(to), **kw) if rnd.random() < 0.3 and hasattr(x, "astype") else xnp.astype(x, form(to), **kw)
                return logged(r)

            r, err = rec.call(go)
            rec.ev("astype", cls=cls.__name__, to=to, x=logged(x), err=err, out=r if not err else [])
            leaves = [a for _, a in zoo.leaves_of(x)]
            how = rnd.choice(["safe", "same_kind", "unsafe", "no"])
            rec.pending("can_cast %s %s" % (to, how))
            each = [bool(jnp.can_cast(a.dtype, jnp.dtype(to), casting=how)) for a in leaves]
            r, err = rec.call(lambda: bool(xnp.can_cast(x, jnp.dtype(to), **({} if how == "safe" and rnd.random() < 0.5 else dict(casting=how)))))
            rec.ev("can_cast", cls=cls.__name__, to=to, how=how, types=[str(a.dtype) for a in leaves], each=each, err=err, res=not err and r)
            # against a record of the same class whose fields were given other types
            y = zoo.build(cls, {n: jnp.asarray(a).astype(rnd.choice([jnp.int8, jnp.uint16, jnp.float16, jnp.float32, jnp.int32])) for n, a in zoo.leaves_of(x)})
            rec.pending("result_type %s" % cls.__name__)
            other = [a for _, a in zoo.leaves_of(y)]
            each = [str(jnp.result_type(a, b)) for a, b in zip(leaves, other)]
            r, err = rec.call(lambda: [str(jnp.dtype(d)) for _, d in leaves_by_name(xnp.result_type(x, y), fs)])
            rec.ev("result_type", cls=cls.__name__, x=[str(a.dtype) for a in leaves], y=[str(a.dtype) for a in other], each=each, err=err, res=r if not err else [])
            each = [bool(jnp.can_cast(a.dtype, b.dtype)) for a, b in zip(leaves, other)]
            r, err = rec.call(lambda: bool(xnp.can_cast(x, y)))
            rec.ev("can_cast", cls=cls.__name__, to="record", how="safe", types=[str(a.dtype) for a in leaves], each=each, err=err, res=not err and r)


def leaves_by_name(r, fs):
    """(name, value) of the leaf fields of a record whose leaves need not be arrays."""
    import operator

    return [(n, operator.attrgetter(n)(r)) for n, *_ in fs]
