"""C15: whole-record packing of dynamically built layouts."""
import json
import random

import numpy as np


def declared_for(b, rnd):
    if b == 1:
        return rnd.choice(["bool", "bool", "uint8", "int32", "uint32"])
    if b <= 7:
        return rnd.choice(["uint8", "uint8", "int8", "uint16", "int32", "uint32"])
    if b == 8:
        return rnd.choice(["uint8", "uint8", "int16", "uint32"])
    if b <= 15:
        return rnd.choice(["uint16", "int16", "uint32", "int32"])
    if b == 16:
        return rnd.choice(["uint16", "int32", "uint32"])
    if b < 32:
        return rnd.choice(["uint32", "int32"])
    return "uint32"


def bit_lists(a, b):
    """Array -> nested lists of little-endian bits of width b; [-1] where a value does not fit."""
    a = np.asarray(a)
    if a.dtype == bool:
        a = a.astype(np.uint8)
    v = a.astype(object) if a.dtype.kind not in "iu" else a.astype(np.int64)
    flat = [int(x) for x in np.asarray(v, dtype=object).reshape(-1)]
    out = [[(x >> j) & 1 for j in range(b)] if 0 <= x < (1 << b) else [-1] for x in flat]
    return out


def word_bytes(w):
    w = np.asarray(w).astype("<u4")
    return np.frombuffer(w.tobytes(), np.uint8).reshape(w.shape[0], -1).tolist() if w.shape[0] else []


def rand_values(rnd, n, b, mode):
    top = (1 << b) - 1
    if mode == "random":
        return [rnd.getrandbits(b) for _ in range(n)]
    if mode == "alternating":
        return [top if (i + n) % 2 else 0 for i in range(n)]
    if mode == "onebit":
        return [1 << rnd.randrange(b) for _ in range(n)]
    return [rnd.choice([0, top, 1, 1 << (b - 1), rnd.getrandbits(b)]) for _ in range(n)]


COUNT = [0]


def make_class(leaves, rnd, how, **decor):
    """A record class with these leaves in order, some of them inside nested records.

    leaves: [{b, n, s}]; returns (class, leaves with path and declared dtype)."""
    from xtructure import FieldDescriptor, xtructure_dataclass
    import jax.numpy as jnp

    COUNT[0] += 1
    out = [dict(b=lf["b"], n=lf["n"], s=list(lf["s"]), d=declared_for(lf["b"], rnd)) for lf in leaves]

    def klass(name, lo, hi, prefix, depth):
        ann, k, f = {}, lo, 0
        while k < hi:
            fname = "f%d" % f
            f += 1
            if depth < 2 and hi - k >= 1 and rnd.random() < 0.25:
                m = rnd.randint(k + 1, hi)
                inner = klass(name + "N%d" % f, k, m, prefix + [fname], depth + 1)
                ann[fname] = FieldDescriptor.scalar(dtype=inner) if hasattr(FieldDescriptor, "scalar") else FieldDescriptor(inner)
                k = m
                continue
            lf = out[k]
            lf["path"] = ".".join(prefix + [fname])
            ann[fname] = FieldDescriptor.tensor(dtype=jnp.dtype(lf["d"]), shape=tuple(lf["s"]), bits=lf["b"], fill_value=0) if lf["s"] else \
                FieldDescriptor.scalar(dtype=jnp.dtype(lf["d"]), bits=lf["b"], default=0)
            k += 1
        c = type(name, (), {"__module__": __name__})
        c.__annotations__ = ann
        return xtructure_dataclass(c, **(decor if depth == 0 else {}))

    cls = klass("L%d" % COUNT[0], 0, len(out), [], 0)
    return cls, out


def get(obj, path):
    for p in path.split("."):
        obj = getattr(obj, p)
    return obj


def construct(cls, leaves, arrays):
    """Build an instance from leaf arrays given by path."""
    from xtructure.core.field_descriptors import get_field_descriptors  # type: ignore

    def make(c, prefix):
        kw = {}
        for name, fd in get_field_descriptors(c).items():
            p = prefix + [name]
            here = ".".join(p)
            kw[name] = arrays[here] if here in arrays else make(fd.dtype, p)
        return c(**kw)

    return make(cls, [])


def layouts(rec, path, count, seed, random_layouts=False, long=False):
    import jax
    import jax.numpy as jnp

    rnd = random.Random(seed)
    if long:  # fields that end past bit 65536, some values next to them
        todo = []
        for _ in range(count):
            b = rnd.choice([1, 7, 16, 23, 31, 32])
            n = 65536 // b + rnd.randint(2, 40)
            todo.append([dict(b=rnd.randint(1, 32), n=1, s=[]), dict(b=b, n=n, s=[n]), dict(b=rnd.randint(2, 32), n=3, s=[3])])
    elif random_layouts:
        todo = []
        for _ in range(count):
            ls = []
            for _ in range(rnd.choice([1, 2, 3, 3, 5, 8])):
                s = rnd.choice([[], [], [1], [2], [3], [5], [9], [33], [2, 2], [3, 1, 2], [0]])
                ls.append(dict(b=rnd.choice([rnd.randint(1, 32), rnd.randint(1, 9)]), n=int(np.prod(s)) if s else 1, s=s))
            todo.append(ls)
    else:
        with open(path) as fh:
            todo = json.load(fh)
        rnd.shuffle(todo)
        todo = todo[:count]
    for t, leaves in enumerate(todo):
        if rec.out_of_time():
            return
        rec.pending("layout %s" % leaves)
        decor = rnd.choice([{}, {}, dict(aggregate_bitpack=True), dict(bitpack="aggregate")])
        made, err = rec.call(make_class, leaves, rnd, "x", **decor)
        if err:
            rec.reset()
            rec.ev("layout", leaves=[dict(b=1, n=1, s=[], path="?", d="?")])
            rec.ev("schema", err="building %s: %s" % (leaves, err))
            continue
        cls, lv = made
        rec.reset()
        rec.ev("layout", leaves=[dict(b=x["b"], n=x["n"], s=x["s"], path=x["path"], d=x["d"]) for x in lv])
        sch, err = rec.call(rnd.choice([lambda: cls.bitpack_schema(), lambda: cls.Packed.bitpack_schema()]))
        if err:
            rec.ev("schema", err=err)
            continue
        rec.ev("schema", err="", fields=[dict(path=f["path"], bits=f["bits"], bit_offset=f["bit_offset"], bit_len=f["bit_len"], nvalues=f["nvalues"],
                                              shape=list(f["unpacked_shape"]), default_dtype=f["unpacked_dtype_default"], declared_dtype=f["declared_dtype"])
                                         for f in sch["fields"]],
               **{k: sch[k] for k in ("total_bits", "payload_bytes", "storage_bytes", "words_all_len", "words_len", "tail_bytes")})
        if not long and rnd.random() < 0.3:
            run_random(rec, cls, lv, rnd, jax, jnp)
        run_layout(rec, cls, lv, rnd, jax, jnp, batch=rnd.choice([(), (1,)]) if long else None)


def run_random(rec, cls, lv, rnd, jax, jnp):
    """Records drawn at random hold values the declared widths can hold."""
    batch = rnd.choice([(), (2,), (5,), (2, 3)])
    size = int(np.prod(batch)) if batch else 1
    got, err = rec.call(lambda: jax.block_until_ready(cls.random(batch, jax.random.PRNGKey(rnd.getrandbits(30)))))
    if err:
        rec.ev("random", err=err)
        return
    arr = [np.asarray(get(got, x["path"])) for x in lv]
    rec.ev("random", err="", batch=list(batch), shapes=[list(a.shape) for a in arr], dtypes=[str(a.dtype) for a in arr],
           rows=[[bit_lists(a.reshape((size, -1))[r], x["b"]) for a, x in zip(arr, lv)] for r in range(size)])


def pick_indices(rnd, n):
    """(indices argument, positions it names)"""
    r = rnd.random()
    if n == 0 or r < 0.25:
        return None, None
    if r < 0.45:
        a, b, c = rnd.choice([None, rnd.randrange(n)]), rnd.choice([None, rnd.randint(0, n)]), rnd.choice([None, 1, 2, 3])
        if rnd.random() < 0.4:  # counted from the end, past the end, backwards
            a, b, c = rnd.choice([None, a, -rnd.randint(1, n)]), rnd.choice([None, b, -rnd.randint(1, n), n + rnd.randint(1, 9)]), rnd.choice([None, 1, 2, -1, -2])
        return slice(a, b, c), list(range(*slice(a, b, c).indices(n)))
    at = [rnd.randrange(n) for _ in range(rnd.choice([1, 1, 2, 4]))]
    if r < 0.6:
        return at, at
    if r < 0.7:
        return at[0], at[:1]
    return np.array(at), at


def run_layout(rec, cls, lv, rnd, jax, jnp, batch=None):
    batch = batch if batch is not None else rnd.choice([(), (), (3,), (3,), (2, 2), (1,), (0,), (2, 0)])
    size = int(np.prod(batch)) if batch else 1
    vals = {}
    for x in lv:
        v = [rand_values(rnd, x["n"], x["b"], rnd.choice(["random", "alternating", "onebit", "edges"])) for _ in range(size)]
        vals[x["path"]] = np.array(v, np.uint64).reshape(tuple(batch) + tuple(x["s"])).astype(x["d"])
    rows = [[bit_lists(vals[x["path"]].reshape((size, x["n"]))[r], x["b"]) for x in lv] for r in range(size)]
    rec.ev("put", rows=rows, batch=list(batch))
    inst, err = rec.call(construct, cls, lv, {p: jnp.asarray(v) for p, v in vals.items()})
    if err:
        rec.ev("pack", err=err, how="construct")
        return
    fields = []
    for x in rnd.sample(lv, min(len(lv), 2)):
        fields.append((x, pick_indices(rnd, x["n"]), rnd.choice(["default", "declared"]), rnd.random() < 0.3))
    orig_style = rnd.random() < 0.5

    def everything(r):
        p = r.packed
        u = p.unpacked if orig_style else p.unpack()
        o = p.as_original() if orig_style else p.unpack(dtype_policy="declared")
        fs = [p.unpack_field(tuple(x["path"].split(".")) if tup else x["path"], indices=ix, dtype_policy=pol)
              for x, (ix, _), pol, tup in fields]
        return p, u, o, fs

    how = rnd.choice(["jit"] * 8 + ["eager", "vmap", "vmap", "alone", "alone"])
    if how == "vmap" and not (len(batch) == 1 and size):
        how = "jit"
    if how == "alone" and not size:
        how = "eager"
    rec.pending("pack/unpack %s batch=%s layout=%s" % (how, batch, lv))
    try_ev = dict(how=how)
    if how == "alone":
        i = rnd.randrange(size)
        at = np.unravel_index(i, batch) if batch else ()
        if batch:
            one, err = rec.call(lambda: inst[tuple(int(a) for a in at)] if rnd.random() < 0.2 else
                                construct(cls, lv, {p: jnp.asarray(v[at]) for p, v in vals.items()}))
            if err:
                rec.ev("pack", err=err, **try_ev)
                return
            rec.ev("choose", at=[i], batch=[])
            inst, batch, size = one, (), 1
            rows = [rows[i]]
    f = dict(jit=jax.jit(everything), eager=everything, alone=jax.jit(everything), vmap=jax.jit(jax.vmap(everything)))[how]
    res, err = rec.call(lambda: jax.block_until_ready(f(inst)))
    if err:
        # find out which part fails
        _, e1 = rec.call(lambda: inst.packed)
        rec.ev("pack" if e1 else "unpack", err=err, policy="default", **try_ev)
        return
    p, u, o, fs = res
    report(rec, p, u, o, fs, fields, lv, size, cls, how)
    # packed forms are records of their own: select some, unpack those
    if len(batch) == 1 and size > 1 and rnd.random() < 0.15:
        at = [rnd.randrange(size) for _ in range(2)]
        sel, err = rec.call(lambda: p[jnp.array(at)])
        if not err:
            rec.ev("choose", at=at, batch=[2])
            f2 = jax.jit(lambda q: (q, q.unpacked, q.as_original(), []))
            r2, err = rec.call(lambda: f2(sel))
            if err:
                rec.ev("unpack", err=err, policy="default", how="selected")
            else:
                report(rec, *r2, [], lv, 2, cls, "selected")


def report(rec, p, u, o, fs, fields, lv, size, cls, how):
    words, tail = np.asarray(p.words), np.asarray(p.tail)
    rec.ev("pack", err="", how=how, wshape=list(words.shape), tshape=list(tail.shape), wdtype=str(words.dtype), tdtype=str(tail.dtype),
           words=word_bytes(words.reshape(size, -1)) if size else [], tail=tail.reshape(size, -1).tolist() if size else [])
    for pol, obj in (("default", u), ("declared", o)):
        arr = {x["path"]: np.asarray(get(obj, x["path"])) for x in lv}
        got = []
        if size:
            cols = [[bit_lists(arr[x["path"]].reshape((size, -1))[r], x["b"]) for r in range(size)] if arr[x["path"]].size == size * x["n"] else None for x in lv]
            got = [[c[r] if c is not None else [[-2]] for c in cols] for r in range(size)]
        rec.ev("unpack", err="", how=how, policy=pol, rows=got, shapes=[list(arr[x["path"]].shape) for x in lv],
               dtypes=[str(arr[x["path"]].dtype) for x in lv], original_class=type(obj) is cls)
    for (x, (ix, at), pol, _), a in zip(fields, fs):
        a = np.asarray(a)
        m = x["n"] if at is None else len(at)
        got = [bit_lists(a.reshape((size, -1))[r], x["b"]) for r in range(size)] if size and a.size == size * m else ([] if not size else [[[-2]]])
        rec.ev("field", err="", how=how, path=x["path"], all=at is None, at=at or [], policy=pol, got=got, shape=list(a.shape), dtype=str(a.dtype))
