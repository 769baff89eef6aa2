"""C19: batch shapes, default and random records."""
import copy
import dataclasses
import json
import pickle
import random

import numpy as np

COUNT = [0]
DTYPES = ["bool", "uint8", "uint16", "uint32", "int8", "int16", "int32", "float16", "bfloat16", "float32"]


def np_dtype(d):
    import jax.numpy as jnp

    return np.dtype(jnp.dtype(d))


def fill_of(d, rnd):
    import jax.numpy as jnp

    if d == "bool":
        return rnd.random() < 0.5
    if "float" in d:
        return rnd.choice([0.0, -1.5, 2.0, 8.0, float("-inf")])
    info = np.iinfo(np.dtype(d))
    return rnd.choice([int(info.max), int(info.min), 0, 1, 7, rnd.randint(max(int(info.min), -2**31), min(int(info.max), 2**32 - 1))])


def bytes_of(a):
    return list(np.ascontiguousarray(np.asarray(a)).tobytes())


def make(kids, rnd, plain=False):
    """Record class from a tree; adds names, dtypes and fills to it."""
    import jax.numpy as jnp
    from xtructure import FieldDescriptor, xtructure_dataclass

    ann = {}
    for j, f in enumerate(kids):
        f["n"] = "f%d" % j
        if f["r"]:
            f["d"] = ""
            inner = make(f["k"], rnd, plain)
            ann[f["n"]] = FieldDescriptor.tensor(dtype=inner, shape=tuple(f["i"])) if f["i"] else FieldDescriptor.scalar(dtype=inner)
            continue
        f["d"] = d = rnd.choice(["uint32", "bool", "float32"] if plain else DTYPES)
        f["asked"] = []
        f["how"] = rnd.choice(["none", "none", "value", "factory"])
        kw = {}
        f["v"] = None
        if f["how"] == "value":
            f["v"] = fill_of(d, rnd)
            kw["fill_value" if f["i"] else "default"] = f["v"]
        elif f["how"] == "factory":
            kw["fill_value_factory"] = factory(f, d)
        ann[f["n"]] = FieldDescriptor.tensor(dtype=jnp.dtype(d), shape=tuple(f["i"]), **kw) if f["i"] else FieldDescriptor.scalar(dtype=jnp.dtype(d), **kw)
    COUNT[0] += 1
    c = type("S%d" % COUNT[0], (), {"__module__": __name__})
    c.__annotations__ = ann
    c = xtructure_dataclass(c)
    globals()[c.__name__] = c  # reachable by name, for pickling
    return c


def factory(f, d):
    def make_fill(shape, dtype):
        f["asked"] = list(shape)
        n = int(np.prod(shape)) if shape else 1
        a = (np.arange(n) % 2 if d == "bool" else np.arange(n) % 120).astype(np_dtype(d)).reshape(shape)
        f["given"] = bytes_of(a)
        return a
    return make_fill


def flat(kids):
    for f in kids:
        if f["r"]:
            yield from flat(f["k"])
        else:
            yield f


def values(kids, obj):
    for f in kids:
        v = getattr(obj, f["n"])
        if f["r"]:
            yield from values(f["k"], v)
        else:
            yield v


def tree_now(kids, obj):
    """The class tree with the actual shapes and dtypes of obj."""
    out = []
    for f in kids:
        v = getattr(obj, f["n"])
        out.append(dict(r=f["r"], i=f["i"], a=[] if f["r"] else list(np.shape(v)), d="" if f["r"] else str(v.dtype),
                        k=tree_now(f["k"], v) if f["r"] else []))
    return out


def seq(b):
    return [-1] if isinstance(b, int) and b == -1 else list(b)


def flat_dtypes(kids, dt):
    for f in kids:
        v = getattr(dt, f["n"])
        if f["r"]:
            yield from flat_dtypes(f["k"], v)
        else:
            yield str(np.dtype(v))


def look(rec, kids, obj, want=None):
    def number(fn):
        try:
            return int(fn())
        except TypeError:
            return -1

    def see():
        s = obj.shape
        fs = [list(getattr(s, f["n"]).batch) if f["r"] and getattr(s, f["n"]).batch != -1 else [-1] if f["r"] else list(getattr(s, f["n"])) for f in kids]
        return dict(b=seq(s.batch), bs=seq(obj.batch_shape), kind=obj.structured_type.name, len=number(lambda: len(obj)), nd=number(lambda: obj.ndim),
                    ds=list(flat_dtypes(kids, obj.dtype)), fs=fs, **{"def": [list(getattr(obj.default_shape, f["n"])) for f in kids]})

    o, err = rec.call(see)
    o = o or dict(b=[-2], bs=[-2], kind="", len=-2, nd=-2, ds=[], fs=[], **{"def": []})
    rec.ev("look", k=tree_now(kids, obj), err=err, want=[-2] if want is None else want, **o)
    return err


def put_leaf(kids, obj, j, shape, jnp, via):
    """obj with its j-th leaf (from 1, in field order) given another shape."""
    for f in kids:
        w = len(list(flat(f["k"]))) if f["r"] else 1
        if j > w:
            j -= w
            continue
        old = getattr(obj, f["n"])
        new = put_leaf(f["k"], old, j, shape, jnp, via) if f["r"] else jnp.asarray(np.ones(shape, old.dtype))
        if via == "dataclasses":
            return dataclasses.replace(obj, **{f["n"]: new})
        return obj.replace(**{f["n"]: new})


def identity(rnd, obj, jax):
    how = rnd.choice(["tree_map", "flatten", "jit", "copy", "pickle", "replace", "deepcopy", "tree_path"])
    if how == "tree_map":
        return jax.tree_util.tree_map(lambda x: x, obj)
    if how == "flatten":
        leaves, d = jax.tree_util.tree_flatten(obj)
        return jax.tree_util.tree_unflatten(d, leaves)
    if how == "jit":
        return jax.jit(lambda x: x)(obj)
    if how == "copy":
        return copy.copy(obj)
    if how == "deepcopy":
        return copy.deepcopy(obj)
    if how == "tree_path":
        return jax.tree_util.tree_map_with_path(lambda p, x: x, obj)
    if how == "pickle":
        return pickle.loads(pickle.dumps(obj))
    return obj.replace()


def rebuild(rnd, obj, op, jax, jnp):
    from xtructure import xtructure_numpy as xnp

    if op == "same":
        return identity(rnd, obj, jax)
    if op == "lead":
        return rnd.choice([lambda: jax.tree_util.tree_map(lambda x: x[None], obj), lambda: obj[None], lambda: xnp.expand_dims(obj, 0)])()
    if op == "stack2":
        return rnd.choice([lambda: xnp.stack([obj, obj]), lambda: jax.tree_util.tree_map(lambda a, b: jnp.stack([a, b]), obj, obj),
                           lambda: jax.vmap(lambda i: obj)(jnp.arange(2))])()
    if op == "first":
        return rnd.choice([lambda: obj[0], lambda: jax.tree_util.tree_map(lambda x: x[0], obj), lambda: xnp.take(obj, jnp.asarray(0), axis=0)])()
    if op == "slice":
        return rnd.choice([lambda: obj[1:], lambda: jax.tree_util.tree_map(lambda x: x[1:], obj)])()
    if op == "flatten":
        return rnd.choice([lambda: obj.flatten(), lambda: obj.reshape((int(np.prod(obj.shape.batch)),))])()
    if op == "concat2":
        return xnp.concatenate([obj, obj])
    if op == "reverse":
        return obj.transpose()
    raise AssertionError(op)


def programs(rec, path, seed):
    """Programs emitted by the model checker."""
    import jax
    import jax.numpy as jnp

    rnd = random.Random(seed)
    with open(path) as fh:
        cases = json.load(fh)
    for c in cases:
        c["key"] = (c["t"], tuple((s["op"], tuple(s["b"]), s["j"], tuple(s["s"])) for s in c["p"]))
    inner = {(t, p[:n]) for t, p in (c["key"] for c in cases) for n in range(1, len(p))}
    cases = [c for c in cases if c["key"] not in inner]
    rnd.shuffle(cases)
    made = {}
    for c in cases:
        if rec.out_of_time():
            break
        if c["t"] not in made or rnd.random() < 0.01:
            kids = json.loads(json.dumps(c["k"]))
            made[c["t"]] = (make(kids, rnd, plain=True), kids)
        cls, kids = made[c["t"]]
        rec.reset(text="class %d %s" % (c["t"], [s["op"] for s in c["p"]]))
        obj, want = None, None
        for s in c["p"]:
            rec.pending("%s on class %s" % (s, json.dumps(c["k"])))
            if s["op"] == "default":
                obj, err = rec.call(lambda: cls.default(tuple(s["b"])))
                want = s["b"]
            elif s["op"] == "look":
                look(rec, kids, obj, want)
                continue
            elif s["op"] == "replace":
                obj, err = rec.call(lambda: put_leaf(kids, obj, s["j"], tuple(s["s"]), jnp, rnd.choice(["dataclasses", "replace"])))
                want = None
            else:
                obj, err = rec.call(lambda: rebuild(rnd, obj, s["op"], jax, jnp))
                want = s["b"]
            if err:
                rec.ev("step", what=s["op"], err=err)
                break
        else:
            if c["p"][-1]["op"] != "look":
                look(rec, kids, obj, want)


def random_tree(rnd, depth=0):
    out = []
    for _ in range(rnd.choice([1, 1, 2, 2, 3, 4] if depth else [1, 2, 3, 4, 5, 6])):
        i = [rnd.choice([1, 2, 2, 3, 4]) for _ in range(rnd.choice([0, 0, 1, 1, 2, 3]))]
        if depth < 3 and rnd.random() < 0.35:
            out.append(dict(r=True, i=i[:2], a=[], k=random_tree(rnd, depth + 1)))
        else:
            out.append(dict(r=False, i=i, a=[], k=[]))
    return out[:12]


def some_batch(rnd):
    return [rnd.choice([1, 2, 2, 3, 4, 0, 5]) for _ in range(rnd.choice([0, 0, 1, 1, 2, 3]))]


def elements(a):
    a = np.asarray(a)
    raw = np.frombuffer(np.ascontiguousarray(a).tobytes(), np.uint8).reshape(a.size, a.dtype.itemsize) if a.size else np.zeros((0, 1), np.uint8)
    return [list(map(int, r)) for r in sorted({tuple(r) for r in raw.tolist()})]


def observed(a, whole):
    els = elements(a)
    return dict(a=list(a.shape), d=str(a.dtype), els=els[:4], all=bytes_of(a) if whole else [])


def classes(rec, seed):
    """Random classes: defaults, random records, longer rebuilding programs."""
    import jax
    import jax.numpy as jnp

    rnd = random.Random(seed)
    while not rec.out_of_time():
        kids = random_tree(rnd)
        cls = make(kids, rnd)
        rec.reset(text="random class with %d leaves" % len(list(flat(kids))))
        for _ in range(rnd.choice([1, 2, 3])):
            s = some_batch(rnd)
            rec.pending("default(%s)" % s)
            obj, err = rec.call(lambda: cls.default(tuple(s)) if rnd.random() < 0.8 or s else cls.default())
            fs = list(flat(kids))
            want = []
            for f in fs:
                f2 = dict(d=f["d"], how=f["how"], asked=f["asked"], f=[])
                if f["how"] == "value":
                    f2["f"] = bytes_of(np.asarray(f["v"]).astype(np_dtype(f["d"])))
                elif f["how"] == "factory":
                    f2["f"] = f.get("given", [])
                want.append(f2)
            o = [] if err else [observed(v, f["how"] == "factory") for f, v in zip(fs, values(kids, obj))]
            rec.ev("default", k=strip(kids), s=s, x=want, o=o, err=err)
            if err:
                continue
            if look(rec, kids, obj, s):
                continue
            for _ in range(rnd.randint(1, 5)):
                obj = one_step(rec, rnd, kids, obj, jax, jnp)
                if obj is None:
                    break
        if rnd.random() < 0.5:
            randoms(rec, rnd, cls, kids, jax)


def one_step(rec, rnd, kids, obj, jax, jnp):
    b = seq(obj.shape.batch)
    fs = list(flat(kids))
    r = rnd.random()
    if r < 0.25 or b == [-1]:
        if rnd.random() < 0.3 and b == [-1]:
            op = "same"
            obj2, err = rec.call(lambda: identity(rnd, obj, jax))
            want = None
        else:
            j = rnd.randrange(len(fs))
            full = [list(np.shape(v)) for v in values(kids, obj)][j]
            shape = rnd.choice([full + [2], full[1:], fs[j]["i"], [2] + fs[j]["i"], [3] + full, list(reversed(full)), []])
            obj2, err = rec.call(lambda: put_leaf(kids, obj, j + 1, tuple(shape), jnp, rnd.choice(["dataclasses", "replace"])))
            op, want = "replace", None
    else:
        ops = ["same", "lead", "stack2"]
        if b:
            ops += ["slice", "flatten", "concat2", "reverse"] + (["first"] * 3 if b[0] > 0 else [])
        op = rnd.choice(ops)
        obj2, err = rec.call(lambda: rebuild(rnd, obj, op, jax, jnp))
        want = dict(same=b, lead=[1] + b, stack2=[2] + b, first=b[1:], slice=[max(0, b[0] - 1)] + b[1:] if b else [], flatten=[int(np.prod(b))],
                    concat2=[2 * b[0]] + b[1:] if b else [], reverse=b[::-1])[op]
    if err:
        rec.ev("step", what="%s on batch shape %s" % (op, b), err=err)
        return None
    if rnd.random() < 0.7:
        if look(rec, kids, obj2, want):
            return None
    if rnd.random() < 0.2 and look(rec, kids, obj):  # the old record is unaffected
        return None
    return obj2


def strip(kids):
    return [dict(r=f["r"], i=f["i"], a=[], d=f["d"], k=strip(f["k"])) for f in kids]


def randoms(rec, rnd, cls, kids, jax):
    s = some_batch(rnd)
    k1, k2 = jax.random.PRNGKey(rnd.randrange(10**6)), jax.random.PRNGKey(10**6 + rnd.randrange(10**6))
    rec.pending("random(%s)" % s)

    def go(key):
        return [np.asarray(v) for v in values(kids, cls.random(tuple(s), key) if key is not None else cls.random(tuple(s)))]

    use = k1 if rnd.random() < 0.8 else None
    a, err = rec.call(go, use)
    if err:
        rec.ev("random", k=strip(kids), s=s, o=[], same=True, again=False, bits=0, err=err)
        return
    b, c = go(use), go(k2)
    eq = lambda x, y: all(p.tobytes() == q.tobytes() for p, q in zip(x, y))  # noqa: E731
    o = []
    for v in a:
        kind = str(v.dtype)
        per = 1 if kind == "bool" else 7 if "float" in kind else 8 * v.dtype.itemsize
        f = v.astype(np.float32) if "float" in kind else None
        o.append(dict(a=list(v.shape), d=kind, bits=per * max(0, v.size - 1), els=len(elements(v)),
                      ok=True if f is None else bool(np.all(np.isfinite(f)))))
    rec.ev("random", k=strip(kids), s=s, o=o, same=eq(a, b), again=eq(a, c), bits=sum((1 if str(v.dtype) == "bool" else 7) * v.size for v in a), err="")
