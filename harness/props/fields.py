"""C16: records with packed tensor fields, and the raw array conversion."""
import json
import random

import numpy as np

from harness.props.bits import bit_lists, rand_values

COUNT = [0]
PLAIN = [("uint32", ()), ("float32", (3,)), ("bool", ()), ("uint8", (2, 2)), ("int32", (1,))]


def view_dtype(b, rnd):
    if rnd.random() < 0.5:
        return None
    if b == 1:
        return rnd.choice(["bool", "uint8", "int32", "uint32"])
    if b <= 7:
        return rnd.choice(["uint8", "int8", "int32", "uint32"])
    if b == 8:
        return rnd.choice(["uint8", "int32", "uint16"])
    if b <= 15:
        return rnd.choice(["uint16", "int16", "int32", "uint32"])
    if b == 16:
        return rnd.choice(["uint16", "int32", "uint32"])
    return rnd.choice(["int32", "uint32"]) if b < 32 else "uint32"


def rows_of(a, size):
    """Bytes of every row of a batched array."""
    a = np.ascontiguousarray(np.asarray(a))
    if not size:
        return []
    return np.frombuffer(a.tobytes(), np.uint8).reshape(size, -1).tolist() if a.size else [[] for _ in range(size)]


def make(specs, rnd):
    """specs: list of (bits, shape) for packed fields; plain fields are mixed in."""
    import jax.numpy as jnp
    from xtructure import FieldDescriptor, xtructure_dataclass

    COUNT[0] += 1
    ann, fields = {}, []
    todo = [("p", s) for s in specs] + [("q", rnd.choice(PLAIN)) for _ in range(rnd.choice([0, 1, 1, 2]))]
    rnd.shuffle(todo)
    for i, (kind, s) in enumerate(todo):
        name = "f%d" % i
        if kind == "p":
            b, shape = s
            n = int(np.prod(shape)) if shape else 1
            ud = view_dtype(b, rnd)
            fill = rnd.choice([None, 0, 255, 7])
            kw = dict(packed_bits=b)
            kw["shape" if rnd.random() < 0.7 else "unpacked_shape"] = tuple(shape)
            if ud:
                kw["unpacked_dtype"] = jnp.dtype(ud)
            if fill is not None:
                kw["fill_value"] = fill
            fd = FieldDescriptor.packed_tensor(**kw)
            nb = int(fd.intrinsic_shape[0])
            fields.append(dict(packed=True, name=name, b=b, n=n, s=list(shape), nb=nb, rs=[nb], d="uint8", fill=[fill or 0] * nb,
                               ud=ud or ("bool" if b == 1 else "uint8" if b <= 8 else "uint32")))
        else:
            d, shape = s
            n = int(np.prod(shape)) if shape else 1
            fv = True if d == "bool" else rnd.randrange(100)
            fd = FieldDescriptor.tensor(dtype=jnp.dtype(d), shape=shape, fill_value=fv) if shape else FieldDescriptor.scalar(dtype=jnp.dtype(d), default=fv)
            one = np.full(shape, fv).astype(d)
            fields.append(dict(packed=False, name=name, b=0, n=n, s=list(shape), nb=one.nbytes, rs=list(shape), d=d, fill=list(one.tobytes()), ud=d))
        ann[name] = fd
    c = type("F%d" % COUNT[0], (), {"__module__": __name__})
    c.__annotations__ = ann
    return xtructure_dataclass(c), fields


def values(rnd, f, batch, size):
    """(array to hand over, what it means to the specification)"""
    if f["packed"]:
        v = [rand_values(rnd, f["n"], f["b"], rnd.choice(["random", "alternating", "onebit", "edges"])) for _ in range(size)]
        dt = f["ud"] if rnd.random() < 0.8 else ("uint8" if f["b"] <= 8 else "uint32")
        a = np.array(v, np.uint64).reshape(tuple(batch) + tuple(f["s"])).astype(dt)
        return a, [bit_lists(a.reshape((size, -1))[r], f["b"]) for r in range(size)]
    raw = np.array([rnd.randrange(0, 120) for _ in range(size * f["n"])], np.int64).reshape(tuple(batch) + tuple(f["s"])).astype(f["d"])
    return raw, rows_of(raw, size)


def raw_bytes(rnd, f, batch, size):
    a = np.array([rnd.randrange(256) for _ in range(size * f["nb"])], np.uint8).reshape(tuple(batch) + (f["nb"],))
    return a, rows_of(a, size)


def look(inst, fields, jnp):
    """Everything observable of a record, as arrays."""
    return [(getattr(inst, f["name"]), getattr(inst, f["name"] + "_unpacked") if f["packed"] else None) for f in fields]


def seen(inst, arrs, fields):
    batch = list(inst.shape.batch) if inst.shape.batch != -1 else [-1]
    size = int(np.prod(batch)) if batch else 1
    out = []
    for f, (raw, view) in zip(fields, arrs):
        raw = np.asarray(raw)
        d = dict(raw=rows_of(raw, size), rdtype=str(raw.dtype), rshape=list(raw.shape))
        if f["packed"]:
            view = np.asarray(view)
            ok = size and view.size == size * f["n"]
            d.update(view=[bit_lists(view.reshape((size, -1))[r], f["b"]) for r in range(size)] if ok else ([] if not size else [[[-2]]]),
                     vdtype=str(view.dtype), vshape=list(view.shape))
        out.append(d)
    return dict(batch=batch, f=out)


def program(rnd, fields, batch, size):
    """A list of steps (event fields, function of the registers)."""
    steps = []
    names = [f["name"] for f in fields]
    packed = [k for k, f in enumerate(fields) if f["packed"]]
    shapes = []

    def given_for(ks, batch, size):
        ev, kw = [], {}
        for k in ks:
            a, m = values(rnd, fields[k], batch, size)
            ev.append(dict(k=k + 1, rows=m))
            kw[names[k]] = a
        return ev, kw

    for t in range(rnd.choice([3, 4, 5])):
        op = rnd.choice(["build", "build", "default"]) if t == 0 else rnd.choice(["build", "set", "set", "set", "raw", "rows"])
        if op == "default":
            steps.append((dict(op=op, batch=list(batch)), lambda cls, regs, a, b=batch: cls.default(b), {}))
            shapes.append(batch)
        elif op == "build":
            ks = range(len(fields)) if rnd.random() < 0.6 else sorted(rnd.sample(range(len(fields)), rnd.randint(0, len(fields) - 1)))
            ev, kw = given_for(ks, batch, size)
            steps.append((dict(op=op, batch=list(batch), given=ev), lambda cls, regs, a, b=batch: cls.from_unpacked(shape=b, **a), kw))
            shapes.append(batch)
        else:
            src = rnd.randrange(len(shapes))
            sb = shapes[src]
            sz = int(np.prod(sb)) if sb else 1
            if op == "set":
                ks = rnd.sample(packed, rnd.choice([1, 1, len(packed)]))
                ev, kw = given_for(ks, sb, sz)
                steps.append((dict(op=op, src=src + 1, given=ev), lambda cls, regs, a, s=src: regs[s].set_unpacked(**a), kw))
                shapes.append(sb)
            elif op == "raw":
                k = rnd.choice(packed)
                a, m = raw_bytes(rnd, fields[k], sb, sz)
                steps.append((dict(op=op, src=src + 1, k=k + 1, bytes=m), lambda cls, regs, a, s=src: regs[s].replace(**a), {names[k]: a}))
                shapes.append(sb)
            else:
                if len(sb) != 1 or not sz:
                    continue
                at = [rnd.randrange(sz) for _ in range(rnd.choice([1, 2]))]
                one = rnd.random() < 0.4
                if one:
                    at = at[:1]
                ix = at[0] if one else np.array(at)
                nb = () if one else (len(at),)
                steps.append((dict(op=op, src=src + 1, at=at, batch=list(nb)), lambda cls, regs, a, s=src, ix=ix: regs[s][ix], {}))
                shapes.append(nb)
    return steps


def histories(rec, path, seed, long=False):
    import jax
    import jax.numpy as jnp

    rnd = random.Random(seed)
    todo, first = [], True
    if path:
        with open(path) as fh:
            todo = [(lf["b"], lf["s"]) for lay in json.load(fh) for lf in lay]
        rnd.shuffle(todo)
    while not rec.out_of_time():
        m = rnd.choice([1, 2, 2, 3])
        if long:  # one field that ends past bit 65536, a short one beside it
            if long == 1 and not first:
                return
            b = rnd.choice([1, 5, 12, 16, 23, 31, 32])
            specs = [(b, [65536 // b + rnd.randint(2, 60)]), (rnd.randint(1, 32), [3])]
            rnd.shuffle(specs)
        elif path:
            if not todo:
                return
            specs, todo = todo[:m], todo[m:]
        else:
            specs = [(rnd.randint(1, 32), rnd.choice([[], [1], [2], [3], [5], [7], [9], [0], [16], [33], [2, 3], [2, 1, 4], [100]])) for _ in range(m)]
        rec.pending("packed fields %s" % specs)
        made, err = rec.call(make, specs, rnd)
        rec.reset()
        if err:
            rec.ev("decl", err=err, specs=str(specs))
            continue
        cls, fields = made
        rec.ev("decl", err="", fields=fields)
        batch = rnd.choice([(), (3,), (3,), (2, 2), (1,), (0,), (0, 2)]) if not long else rnd.choice([(), (1,)])
        size = int(np.prod(batch)) if batch else 1
        steps = program(rnd, fields, batch, size)[: 2 if long else 10]
        first = False
        how = rnd.choice(["jit"] * 6 + ["eager"])

        def run(args):
            regs = []
            for (_, fn, _), a in zip(steps, args):
                regs.append(fn(cls, regs, a))
            return regs, [look(r, fields, jnp) for r in regs]

        args = [{k: jnp.asarray(v) for k, v in kw.items()} for _, _, kw in steps]
        rec.pending("history %s on %s" % ([s[0]["op"] for s in steps], specs))
        got, err = rec.call(lambda: (jax.jit(run) if how == "jit" else run)(args))
        if err:
            # one step at a time, to name the failing one
            regs = []
            for (ev, fn, _), a in zip(steps, args):
                r, e1 = rec.call(lambda: fn(cls, regs, a))
                s, e2 = rec.call(lambda: seen(r, look(r, fields, jnp), fields)) if not e1 else (None, e1)
                emit(rec, ev, "eager", e1 or e2, s)
                if e1 or e2:
                    break
                regs.append(r)
            continue
        for (ev, _, _), inst, arrs in zip(steps, *got):
            s, err = rec.call(seen, inst, arrs, fields)
            emit(rec, ev, how, err, s)


def emit(rec, ev, how, err, s):
    kw = {k: v for k, v in ev.items() if k != "op"}
    if not err:
        kw["seen"] = Struct(s)
    rec.ev(ev["op"], how=how, err=err, **kw)


class Struct:
    """A dict kept as a JSON object by the recorder."""

    def __init__(self, d):
        self.d = d

    def tolist(self):
        return self.d


def conversions(rec, path, seed):
    import jax
    import jax.numpy as jnp
    from xtructure.core.xtructure_decorators.aggregate_bitpack import bitpack as B

    rnd = random.Random(seed)
    rec.reset()
    while not rec.out_of_time():
        b = rnd.randint(1, 32)
        shape = rnd.choice([(), (1,), (2,), (3,), (5,), (8,), (9,), (13,), (32,), (33,), (65,), (2, 3), (4, 3, 2), (150,)])
        n = int(np.prod(shape)) if shape else 1
        dt = "bool" if b == 1 and rnd.random() < 0.4 else rnd.choice([d for d, w in (("uint8", 8), ("int8", 7), ("uint16", 16), ("int16", 15), ("int32", 31), ("uint32", 32)) if w >= b])
        how = rnd.choice(["jit", "jit", "eager"])

        def both(v):
            p = B.to_uint8(v, active_bits=b)
            return p, B.from_uint8(p, shape, active_bits=b)

        f = jax.jit(both) if how == "jit" else both
        for _ in range(3):
            a = np.array(rand_values(rnd, n, b, rnd.choice(["random", "alternating", "onebit", "edges"])), np.uint64).reshape(shape).astype(dt)
            vals = bit_lists(a, b)
            rec.pending("to_uint8 width=%d shape=%s dtype=%s" % (b, shape, dt))
            r, err = rec.call(lambda: f(jnp.asarray(a)))
            kw = dict(b=b, shape=list(shape), vals=vals, how=how, dtype=dt, err=err)
            if not err:
                nb, err2 = rec.call(B.packed_num_bytes, n, b)
                by, back = np.asarray(r[0]), np.asarray(r[1])
                kw.update(err=err2, num_bytes=nb if nb is not None else -1, bytes=by.tolist(), bdtype=str(by.dtype), bshape=list(by.shape),
                          back=bit_lists(back, b), backshape=list(back.shape), backdtype=str(back.dtype))
            rec.ev("conv", **kw)
