"""A zoo of record classes with an injective encoding  id -> record content.

`Kind.enc(ids)` builds a real record batch whose batch shape is ids.shape; `Kind.dec(x)` maps a real
batch back to ids: every field of every record is compared byte for byte with the content table and a
record whose fields do not all belong to one id decodes to -1 (foreign / mixed record).  Id 0 is the
record made of the declared default fill values.
"""
import jax.numpy as jnp
import numpy as np

from xtructure import FieldDescriptor as FD
from xtructure import xtructure_dataclass


@xtructure_dataclass
class U32:
    x: FD.scalar(dtype=jnp.uint32)


@xtructure_dataclass
class Mix:
    a: FD.scalar(dtype=jnp.uint8)
    v: FD.tensor(dtype=jnp.float32, shape=(2, 3))
    m: FD.tensor(dtype=jnp.bool_, shape=(4,))
    i: FD.scalar(dtype=jnp.int16)
    h: FD.tensor(dtype=jnp.float16, shape=(2,))


@xtructure_dataclass
class Inner:
    x: FD.scalar(dtype=jnp.int32)
    y: FD.tensor(dtype=jnp.bfloat16, shape=(3,))


@xtructure_dataclass
class Nest:
    k: FD.scalar(dtype=jnp.uint16)
    p: FD.scalar(dtype=Inner)
    q: FD.tensor(dtype=jnp.int8, shape=(2, 2))


@xtructure_dataclass
class Packed:
    t: FD.packed_tensor(packed_bits=3, shape=(7,))
    b: FD.packed_tensor(packed_bits=1, shape=(2, 5))
    c: FD.scalar(dtype=jnp.uint16)


@xtructure_dataclass
class Wide:
    w: FD.tensor(dtype=jnp.uint32, shape=(6,))
    f: FD.tensor(dtype=jnp.float32, shape=(3,))


@xtructure_dataclass
class Tiny:
    f: FD.scalar(dtype=jnp.bool_)
    c: FD.scalar(dtype=jnp.uint8)


@xtructure_dataclass
class InnerScal:
    p: FD.scalar(dtype=jnp.int16)
    q: FD.scalar(dtype=jnp.bfloat16)


@xtructure_dataclass
class Scal:
    b: FD.scalar(dtype=jnp.bool_)
    n: FD.scalar(dtype=InnerScal)
    f: FD.scalar(dtype=jnp.float32)
    i: FD.scalar(dtype=jnp.int8)


@xtructure_dataclass
class Bits:
    a: FD.scalar(dtype=jnp.uint8, bits=3)
    b: FD.tensor(dtype=jnp.uint16, shape=(5,), bits=9)
    c: FD.scalar(dtype=jnp.bool_, bits=1)
    d: FD.tensor(dtype=jnp.uint32, shape=(2,), bits=20)


@xtructure_dataclass
class Core:
    x: FD.scalar(dtype=jnp.int16)
    v: FD.scalar(dtype=jnp.int16)


@xtructure_dataclass
class Mid:
    z: FD.tensor(dtype=jnp.uint8, shape=(2,))
    core: FD.scalar(dtype=Core)
    a: FD.tensor(dtype=jnp.uint8, shape=(2,))


@xtructure_dataclass
class Deep:
    q: FD.scalar(dtype=Mid)
    p: FD.scalar(dtype=Mid)


@xtructure_dataclass
class Grid:
    n: FD.scalar(dtype=jnp.uint8)
    r: FD.tensor(dtype=Core, shape=(2,))
    g: FD.scalar(dtype=jnp.uint8)


def leaves_of(x, prefix=""):
    """(name, array) for every primitive field, in declaration order, through public attributes."""
    out = []
    for name in type(x).__dataclass_fields__:
        v = getattr(x, name)
        if hasattr(type(v), "__dataclass_fields__"):
            out += leaves_of(v, prefix + name + ".")
        else:
            out.append((prefix + name, v))
    return out


def build(cls, vals, prefix=""):
    kw = {}
    from xtructure.core.field_descriptors import get_field_descriptors

    for name, fd in get_field_descriptors(cls).items():
        if hasattr(fd.dtype, "__dataclass_fields__"):
            kw[name] = build(fd.dtype, vals, prefix + name + ".")
        else:
            kw[name] = vals[prefix + name]
    return cls(**kw)


def schema(cls, prefix="", outer=()):
    """(name, numpy dtype, shape, bits) of every primitive field."""
    from xtructure.core.field_descriptors import get_field_descriptors

    out = []
    for name, fd in get_field_descriptors(cls).items():
        if hasattr(fd.dtype, "__dataclass_fields__"):
            out += schema(fd.dtype, prefix + name + ".", outer + tuple(fd.intrinsic_shape))
        else:
            out.append((prefix + name, np.dtype(jnp.dtype(fd.dtype)), outer + tuple(fd.intrinsic_shape), fd.bits))
    return out


def _random_content(rng, dt, shape, bits, n):
    size = (n,) + shape
    if dt == np.bool_:
        return rng.integers(0, 2, size).astype(np.bool_)
    if dt.kind == "u":
        hi = (1 << bits) if bits else (1 << (8 * dt.itemsize))
        return rng.integers(0, hi, size, dtype=np.uint64).astype(dt)
    if dt.kind == "i":
        b = 8 * dt.itemsize
        return rng.integers(-(1 << (b - 1)), 1 << (b - 1), size, dtype=np.int64).astype(dt)
    # floats: small multiples of 1/8, never zero and never NaN (exact in every float type)
    m = rng.integers(1, 64, size)
    s = rng.choice([-1, 1], size)
    return (m * s / 8.0).astype(np.float32).astype(dt)


def _alphabet_content(rng, dt, shape, bits):
    """Elements from a few bit patterns (zero, one, top bit, all ones): hard on hashes."""
    if dt == np.bool_:
        return rng.integers(0, 2, shape).astype(np.bool_)
    if dt.kind in "ui":
        b = bits or 8 * dt.itemsize
        u = np.array([0, 1, 1 << (b - 1), (1 << b) - 1], np.uint64)
        return rng.choice(u, shape).astype(np.dtype("u%d" % dt.itemsize)).view(dt) if shape else rng.choice(u, (1,)).astype(np.dtype("u%d" % dt.itemsize)).view(dt)[0]
    return rng.choice(np.array([1.0, -1.0, 2.0, -2.0], np.float32), shape).astype(dt) if shape else np.float32(rng.choice([1.0, -1.0, 2.0, -2.0])).astype(dt)


class Kind:
    plain = False

    def __init__(self, cls, n=32, seed=0, near=False):
        """near=True: records differ from a base record in one field element only."""
        self.cls, self.n = cls, n
        self.schema = schema(cls)
        rng = np.random.default_rng([seed, 7])
        self.table = {}
        default = dict(leaves_of(cls.default()))
        if self._space() < 2 * n:
            raise ValueError("zoo: %s is too small for %d ids" % (cls.__name__, n))
        rows, seen = [], set()
        rows.append({name: np.asarray(default[name]) for name, *_ in self.schema})

        def key(row):
            return tuple(row[name].tobytes() for name, *_ in self.schema)

        seen.add(key(rows[0]))
        tries = 0
        while len(rows) < n:
            fresh = {name: _random_content(rng, dt, shape, bits, 1)[0] for name, dt, shape, bits in self.schema}
            if near == "alpha" and tries < 300 * n:
                if len(rows) >= 2 and rng.random() < 0.7:
                    # one or two elements of an earlier record replaced, or the top bits of two turned over
                    new = {k: np.array(v) for k, v in rows[rng.integers(1, len(rows))].items()}
                    wide = [(nm, tuple(i)) for nm, dt, shape, bits in self.schema if dt.itemsize == 4 and not bits for i in np.ndindex(*shape)]
                    turn = len(wide) > 1 and rng.random() < 0.4
                    for w in rng.permutation(len(wide))[:2] if turn else []:
                        nm, pos = wide[w]
                        u = new[nm].reshape(new[nm].shape).copy()
                        if u.dtype.kind == "f":
                            u[pos] = -u[pos]
                        else:
                            u[pos] ^= np.array(1 << 31, np.uint32).astype(u.dtype) if u.dtype.kind == "u" else np.iinfo(u.dtype).min
                        new[nm] = u
                    for _ in range(0 if turn else rng.integers(1, 3)):
                        name, dt, shape, bits = self.schema[rng.integers(len(self.schema))]
                        c = np.asarray(_alphabet_content(rng, dt, shape, bits))
                        if shape:
                            pos = tuple(rng.integers(s) for s in shape)
                            new[name][pos] = c[pos]
                        else:
                            new[name] = c
                    fresh = new
                else:
                    fresh = {name: _alphabet_content(rng, dt, shape, bits) for name, dt, shape, bits in self.schema}
                tries += 1
            elif near and len(rows) >= 2:
                base = rows[rng.integers(1, len(rows))] if rng.random() < 0.5 else rows[1]
                new = {k: np.array(v) for k, v in base.items()}
                name, dt, shape, bits = self.schema[rng.integers(len(self.schema))]
                if shape:
                    pos = tuple(rng.integers(s) for s in shape)
                    new[name][pos] = fresh[name][pos]
                else:
                    new[name] = fresh[name]
                fresh = new
            fresh = {k: np.asarray(v) for k, v in fresh.items()}
            if key(fresh) in seen:
                continue
            seen.add(key(fresh))
            rows.append(fresh)
        self._finish(rows)

    def _finish(self, rows):
        # constant records (the same number in every field), outside the ids 0..n-1 unless they coincide
        self.fill = {}
        rows = list(rows)
        keys = [tuple(r[name].tobytes() for name, *_ in self.schema) for r in rows]
        for c in (0, 1):
            row = {name: np.full(shape, c).astype(dt) for name, dt, shape, _ in self.schema}
            k = tuple(row[name].tobytes() for name, *_ in self.schema)
            if k not in keys:
                keys.append(k)
                rows.append(row)
            self.fill[c] = keys.index(k)
        n = len(rows)
        self.table = {name: np.stack([r[name] for r in rows]).astype(dt) for name, dt, *_ in self.schema}
        self.by_field = {}
        for name, *_ in self.schema:
            m = {}
            for i in range(n):
                m.setdefault(self.table[name][i].tobytes(), set()).add(i)
            self.by_field[name] = m

    def _space(self):
        s = 1
        for _, dt, shape, bits in self.schema:
            b = bits or (1 if dt == np.bool_ else 8 * dt.itemsize)
            s <<= min(64, b * int(np.prod(shape, dtype=int)))
        return s

    def enc(self, ids):
        ids = np.asarray(ids, dtype=np.int64)
        return build(self.cls, {name: jnp.asarray(self.table[name][ids]) for name, *_ in self.schema})

    def enc_np(self, ids):
        ids = np.asarray(ids, dtype=np.int64)
        return {name: self.table[name][ids] for name, *_ in self.schema}

    def dec(self, x, batch_ndim=None):
        """Decode to (ids ndarray) or raise Malformed describing which field is wrong in shape/type."""
        lv = dict(leaves_of(x))
        shape = None
        cand = None
        for name, dt, ishape, _ in self.schema:
            a = np.asarray(lv[name])
            if a.dtype != dt:
                raise Malformed("field %s has dtype %s, declared %s" % (name, a.dtype, dt))
            k = len(ishape)
            if a.ndim < k or a.shape[a.ndim - k:] != ishape:
                raise Malformed("field %s has shape %s, declared trailing %s" % (name, a.shape, ishape))
            bshape = a.shape[: a.ndim - k]
            if shape is None:
                shape = bshape
            elif shape != bshape:
                raise Malformed("field %s has batch shape %s, others %s" % (name, bshape, shape))
            flat = np.ascontiguousarray(a).reshape((-1,) + ishape)
            sets = [self.by_field[name].get(r.tobytes(), frozenset()) for r in flat]
            cand = sets if cand is None else [p & q for p, q in zip(cand, sets)]
        ids = np.array([min(c) if c else -1 for c in cand], dtype=np.int64)
        return ids.reshape(shape)


class PlainKind:
    """A plain int32 array whose elements stand for records."""

    plain = True
    schema = [("", np.dtype(np.int32), (), None)]

    def __init__(self, n=32, seed=0):
        rng = np.random.default_rng([seed, 13])
        self.cls, self.n = PlainKind, n
        self.values = np.array([0, 1] + [int(v) * 2 + 3 for v in rng.permutation(5000)[: n - 2]], np.int32)
        self.fill = {0: 0, 1: 1}
        self.index = {int(v): i for i, v in enumerate(self.values)}

    def enc(self, ids):
        return jnp.asarray(self.values[np.asarray(ids, dtype=np.int64)])

    def dec(self, x):
        a = np.asarray(x)
        if a.dtype != np.int32:
            raise Malformed("array has dtype %s" % a.dtype)
        return np.array([self.index.get(int(v), -1) for v in a.reshape(-1)], np.int64).reshape(a.shape)


class Malformed(Exception):
    pass


# ---- kinds with scripted or degenerate hashes (steering only: results are judged by content)
@xtructure_dataclass
class Script:
    tag: FD.scalar(dtype=jnp.uint16)
    x: FD.scalar(dtype=jnp.uint32)
    y: FD.tensor(dtype=jnp.int16, shape=(3,))


@xtructure_dataclass
class WeakWide:
    w: FD.tensor(dtype=jnp.uint32, shape=(11,))
    b: FD.scalar(dtype=jnp.uint8)


@xtructure_dataclass
class WeakMix:
    a: FD.scalar(dtype=jnp.uint8)
    v: FD.tensor(dtype=jnp.float32, shape=(2, 2))
    i: FD.scalar(dtype=jnp.int16)


@xtructure_dataclass
class ConstHash:
    x: FD.scalar(dtype=jnp.uint32)
    q: FD.scalar(dtype=jnp.uint8)


@xtructure_dataclass
class EdgeHash:
    x: FD.scalar(dtype=jnp.uint32)
    q: FD.scalar(dtype=jnp.uint8)


def _override_hash(cls, fn):
    """Replace the record type's own hash methods by fn(record, original pair) -> pair."""
    import jax

    o_pair, o_pair_w = cls.hash_pair, cls.hash_pair_with_uint32ed

    def h_pair(x, seed=0):
        return fn(x, o_pair(x, seed))

    def h_pair_w(x, seed=0):
        p, w = o_pair_w(x, seed)
        return fn(x, p), w

    cls.hash_pair = jax.jit(h_pair)
    cls.hash_pair_with_uint32ed = jax.jit(h_pair_w)
    cls.hash = jax.jit(lambda x, seed=0: h_pair(x, seed)[0])

    def h_w(x, seed=0):
        (p, _), w = h_pair_w(x, seed)
        return p, w

    cls.hash_with_uint32ed = jax.jit(h_w)


def _u32(v):
    return jnp.asarray(v, dtype=jnp.uint32)


_override_hash(Script, lambda x, p: (_u32(x.tag) & 0xFF, _u32(x.tag) >> 8))
_override_hash(WeakWide, lambda x, p: (p[0] & 3, p[1] & 1))
_override_hash(WeakMix, lambda x, p: (p[0] & 7, p[1] & 3))
_override_hash(ConstHash, lambda x, p: (_u32(0x12345671) | (p[0] & 0), _u32(0x2468ACE3) | (p[1] & 0)))



def _edge_pair(x, _pair):
    """Hashes at the ends of their range, and some from which a fingerprint of 0 (or of all ones) results."""
    k = _u32(x.q) % 6
    ones, zero, s = _u32(0xFFFFFFFF), _u32(0), _u32(x.q) >> 5
    fp0 = (zero - s * _u32(0x85EBCA6B)) ^ _u32(0x9E3779B9)
    pick = lambda *vs: jnp.select([k == i for i in range(len(vs))], [v | (s & 0) for v in vs])
    return pick(zero, ones, ones, zero, fp0, fp0), pick(zero, ones, zero, ones, s, s)


_override_hash(EdgeHash, _edge_pair)


class ScriptKind(Kind):
    """Script records with chosen start bucket and probe step: id_of(start, step, copy)."""

    def __init__(self, per=8, seed=0):
        self.cls, self.schema = Script, schema(Script)
        self.per = per
        rng = np.random.default_rng([seed, 11])
        d = dict(leaves_of(Script.default()))
        rows = [{n: np.asarray(d[n]) for n, *_ in self.schema}]
        for start in range(8):
            for step in (1, 3, 5, 7):
                for c in range(per):
                    # records of one class of positions differ in a single field
                    near = c % 2
                    rows.append(dict(tag=np.uint16(start | (step << 8)), x=np.uint32(7 if near else rng.integers(2**32)),
                                     y=np.array([c if near else 3, start, -c], np.int16)))
        self.n = len(rows)
        self._finish(rows)

    def id_of(self, start, step, copy):
        return 1 + (start * 4 + (step - 1) // 2) * self.per + copy


CLASSES = {"Deep": Deep, "Grid": Grid, "Scal": Scal, "WeakWide": WeakWide, "WeakMix": WeakMix, "ConstHash": ConstHash, "EdgeHash": EdgeHash, "U32": U32, "Mix": Mix, "Nest": Nest, "Packed": Packed, "Wide": Wide, "Tiny": Tiny, "Bits": Bits}
_cache = {}


def kind(name, n=32, seed=0, near=False):
    key = (name, n, seed, near)
    if key not in _cache and name == "Script":
        _cache[key] = ScriptKind(8, seed)
    if key not in _cache and name == "Plain":
        _cache[key] = PlainKind(n, seed)
    if key not in _cache:
        _cache[key] = Kind(CLASSES[name], n, seed, near)
    return _cache[key]
