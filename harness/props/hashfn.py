"""C18: hashes and views of the same contents computed in many ways and in several processes."""
import hashlib
import json
import os
import random
import subprocess
import sys
import tempfile

import numpy as np

from harness import zoo

BYSIZE = {1: ["bool", "uint8", "int8", "uint8", "float8_e4m3fn"], 2: ["uint16", "int16", "float16", "bfloat16"], 4: ["uint32", "int32", "float32"]}


def make_class(name, leaves, rnd):
    """leaves: list of (bytes per item, shape)."""
    import jax.numpy as jnp
    from xtructure import FieldDescriptor, xtructure_dataclass

    def klass(nm, lo, hi, depth):
        ann, k, f = {}, lo, 0
        while k < hi:
            fname = "f%d" % f
            f += 1
            if depth < 2 and rnd.random() < 0.2:
                m = rnd.randint(k + 1, hi)
                ann[fname] = FieldDescriptor.scalar(dtype=klass(nm + "N%d" % f, k, m, depth + 1))
                k = m
                continue
            size, shape = leaves[k]
            dt = jnp.dtype(rnd.choice(BYSIZE[size]))
            ann[fname] = FieldDescriptor.tensor(dtype=dt, shape=tuple(shape), fill_value=0) if shape or rnd.random() < 0.5 else FieldDescriptor.scalar(dtype=dt, default=0)
            k += 1
        c = type(nm, (), {"__module__": __name__})
        c.__annotations__ = ann
        c = xtructure_dataclass(c)
        setattr(sys.modules[__name__], nm, c)  # so that saved records can be loaded
        return c

    return klass(name, 0, len(leaves), 0)


def tree_class(name, rnd):
    """Records within records within records that share sub-records and draw their field names from few."""
    import jax.numpy as jnp
    from xtructure import FieldDescriptor, xtructure_dataclass

    sizes = [rnd.choice([1, 2, 4]) for _ in range(2)]
    pool = []

    def plain():
        dt = jnp.dtype(rnd.choice(BYSIZE[rnd.choice(sizes)]))
        shape = rnd.choice([(), (), (2,), (3,)])
        return FieldDescriptor.tensor(dtype=dt, shape=shape, fill_value=0) if shape else FieldDescriptor.scalar(dtype=dt, default=0)

    for level, count in enumerate([2, 2, 1]):
        made = []
        for k in range(count):
            names = rnd.sample(["a", "b", "ab", "c", "x"], rnd.choice([2, 3]) if level else rnd.choice([1, 2]))
            ann = {n: FieldDescriptor.scalar(dtype=rnd.choice(pool[-2:])) if level and rnd.random() < 0.75 else plain() for n in names}
            if level:  # two fields of one record class
                ann[names[0]] = FieldDescriptor.scalar(dtype=pool[-1])
                ann[names[-1]] = FieldDescriptor.scalar(dtype=pool[-1])
            nm = "%sL%d%d" % (name, level, k)
            c = type(nm, (), {"__module__": __name__})
            c.__annotations__ = ann
            c = xtructure_dataclass(c)
            setattr(sys.modules[__name__], nm, c)
            made.append(c)
        pool = made
    return pool[-1]


def flat_fields(cls, prefix=()):
    from xtructure.core.field_descriptors import get_field_descriptors
    import jax.numpy as jnp

    out = []
    for n, fd in get_field_descriptors(cls).items():
        if hasattr(fd.dtype, "__dataclass_fields__"):
            if fd.intrinsic_shape:
                return None
            out += flat_fields(fd.dtype, prefix + (n,))
        else:
            out.append((".".join(prefix + (n,)), jnp.dtype(fd.dtype), tuple(fd.intrinsic_shape)))
    return out


def declares_bits(cls):
    from xtructure.core.field_descriptors import get_field_descriptors

    return any(fd.bits is not None or (hasattr(fd.dtype, "__dataclass_fields__") and declares_bits(fd.dtype)) for fd in get_field_descriptors(cls).values())


def is_float(dt):
    return np.dtype(dt).kind == "f" or "float" in np.dtype(dt).name


def legal(arr):
    """No NaN (those have no single meaning); booleans are 0 or 1."""
    return not (is_float(arr.dtype) and np.isnan(np.asarray(arr, np.float32)).any())


def random_row(rnd, fl):
    row = {}
    for p, dt, shape in fl:
        n = int(np.prod(shape)) if shape else 1
        while True:
            if dt.kind == "b":
                a = np.array([rnd.random() < 0.5 for _ in range(n)], bool)
            else:
                a = np.frombuffer(bytes(rnd.choice([0, 255, 128, 1, rnd.randrange(256)]) if n < 200 else 0 for _ in range(n * dt.itemsize)), np.uint8).copy()
                if n >= 200:
                    a = np.frombuffer(rnd.randbytes(n * dt.itemsize), np.uint8).copy()
                a = a.view(dt) if n else np.zeros((0,), dt)
            if is_float(dt):
                a = np.where(np.isnan(np.asarray(a, np.float32)), np.zeros((), dt), a).astype(dt)
            if legal(a):
                break
        row[p] = a.reshape(shape)
    return row


def flip(rnd, row):
    """The row with one bit of one field changed."""
    for _ in range(20):
        p = rnd.choice(list(row))
        a = np.array(row[p])
        if not a.size:
            continue
        flat = a.reshape(-1).copy()
        if flat.dtype.kind == "b":
            i = rnd.randrange(flat.size)
            flat[i] = not flat[i]
        else:
            raw = flat.view(np.uint8)
            bit = rnd.randrange(raw.size * 8)
            raw[bit // 8] ^= 1 << (bit % 8)
        if legal(flat):
            out = dict(row)
            out[p] = flat.reshape(a.shape)
            return out
    return dict(row)


def flip_two(rnd, row):
    """The row with one bit turned over in two items of a field, often neighbours or the last two."""
    ps = [p for p in row if np.asarray(row[p]).size > 1 and np.asarray(row[p]).dtype.kind != "b"]
    for _ in range(10 if ps else 0):
        p = rnd.choice(ps)
        flat = np.array(row[p]).reshape(-1).copy()
        i = rnd.choice([flat.size - 2, rnd.randrange(flat.size - 1)])
        j = rnd.choice([i + 1, i + 1, rnd.randrange(flat.size)])
        bit = rnd.randrange(flat.itemsize * 8)
        for k in {i, j}:
            raw = flat[k:k + 1].view(np.uint8)
            raw[bit // 8] ^= 1 << (bit % 8)
        if legal(flat):
            out = dict(row)
            out[p] = flat.reshape(np.asarray(row[p]).shape)
            return out
    return flip(rnd, row)


def swap(rnd, row):
    """The row with the contents of a field's items rotated, or those of two like fields exchanged."""
    out = dict(row)
    ps = list(row)
    rnd.shuffle(ps)
    for p in ps:
        for q in ps:
            if p != q and row[p].shape == row[q].shape and row[p].dtype == row[q].dtype:
                out[p], out[q] = row[q], row[p]
                return out
    p = ps[0]
    out[p] = np.roll(row[p].reshape(-1), 1).reshape(row[p].shape)
    return out


def key_of(row):
    raw = b"|".join(np.ascontiguousarray(row[p]).tobytes() for p in row)
    return raw.hex() if len(raw) <= 40 else hashlib.sha256(raw).hexdigest()


def digest(b):
    b = bytes(b)
    return b.hex() if len(b) <= 40 else "%d:%s" % (len(b), hashlib.sha256(b).hexdigest())


def spec_of(seed, idx, path):
    """The idx-th class of this seed and its pool of contents; the same in every process."""
    rnd = random.Random("%d:%d" % (seed, idx))
    name = "H%d_%d" % (seed, idx)
    r = rnd.random()
    if r < 0.18:
        cls = zoo.kind(rnd.choice(["U32", "Mix", "Nest", "Packed", "Wide", "Tiny", "Bits", "Scal", "Deep", "Grid"]), 2, 0).cls
    elif r < 0.24:  # records without a single item
        cls = make_class(name, [(rnd.choice([1, 2, 4]), rnd.choice([(0,), (0, 3), (2, 0)])) for _ in range(rnd.choice([1, 2, 3]))], rnd)
    elif r < 0.34:
        cls = tree_class(name, rnd)
    elif r < 0.58 and path:
        lays = PATHS.setdefault(path, None) or PATHS.__setitem__(path, json.load(open(path))) or PATHS[path]
        lay = rnd.choice(lays)
        cls = make_class(name, [(lf["i"], () if lf["n"] == 1 and rnd.random() < 0.7 else (lf["n"],)) for lf in lay], rnd)
    elif r < 0.67:
        n = rnd.choice([8192, 8193, 9001, 20000, 8190])
        cls = make_class(name, [(rnd.choice([1, 2, 4]), (rnd.choice([1, 3, 5]),)), (4, (n,)), (rnd.choice([1, 2, 4]), (rnd.choice([1, 2, 3]),))], rnd)
    else:
        cls = make_class(name, [(rnd.choice([1, 1, 2, 2, 4]), rnd.choice([(), (1,), (2,), (3,), (5,), (7,), (2, 3), (0,), (33,), (3, 1, 2)]))
                                for _ in range(rnd.choice([1, 2, 3, 5]))], rnd)
    fl = flat_fields(cls)
    if fl is None:
        return spec_of(seed, idx + 100000, path)
    rows = [random_row(rnd, fl)]
    while len(rows) < 8:
        src = rnd.choice(rows)
        rows.append(rnd.choice([flip, flip, flip_two, flip_two, swap, lambda r, _: random_row(r, fl)])(rnd, src))
    return name, cls, rows


PATHS = {}


def build(cls, arrays, prefix=()):
    from xtructure.core.field_descriptors import get_field_descriptors

    kw = {}
    for n, fd in get_field_descriptors(cls).items():
        p = prefix + (n,)
        kw[n] = build(fd.dtype, arrays, p) if hasattr(fd.dtype, "__dataclass_fields__") else arrays[".".join(p)]
    return cls(**kw)


def result(hs, hw, pr, pw, by, wd):
    """(quantities, values) of one observation of everything."""
    def h(v):
        return "%08x" % int(np.asarray(v))

    def words(v):
        return digest(np.asarray(v).astype("<u4").tobytes()) + ":" + str(np.asarray(v).shape[0])

    q = ["hash", "hash", "words", "pair1", "pair2", "pair1", "pair2", "words", "bytes", "words"]
    v = [h(hs), h(hw[0]), words(hw[1]), h(pr[0]), h(pr[1]), h(pw[0][0]), h(pw[0][1]), words(pw[1]), digest(np.asarray(by).astype(np.uint8).tobytes()), words(wd)]
    return q, v


def all_of(r, seed):
    return r.hash(seed), r.hash_with_uint32ed(seed), r.hash_pair(seed), r.hash_pair_with_uint32ed(seed), r.bytes, r.uint32ed


def observe(seed, idx, path, rnd, out):
    """Appends observations (dicts) of class idx."""
    import jax
    import jax.numpy as jnp

    name, cls, rows = spec_of(seed, idx, path)

    def stacked(ids, shape):
        return build(cls, {p: jnp.asarray(np.stack([rows[i][p] for i in ids]).reshape(tuple(shape) + rows[0][p].shape)) for p in rows[0]})

    def note(i, sd, how, res, err=""):
        q, v = result(*res) if not err else ([], [])
        out.append(dict(cls=idx, x=key_of(rows[i]), seed=sd, how=how, err=err, q=q, v=v))

    def guarded(how, fn, ids, sds):
        try:
            return jax.block_until_ready(fn())
        except Exception as exc:  # noqa: BLE001
            note(ids[0], sds[0], how, None, "%s: %s: %s" % (how, type(exc).__name__, str(exc)[:150]))
            return None

    seeds = [0, rnd.choice([1, 7, 123456789]), rnd.choice([2**31, 2**32 - 1, 2**31 - 1])]
    third = ["direct", "rebuilt", "indexed", "closed"]
    if not declares_bits(cls):  # contents here ignore declared widths, which saving relies on
        third.append("reloaded")
    ways = ["mapped", rnd.choice(["mapped", "grid"]), rnd.choice(third)]
    for how in ways:
        if how == "mapped":
            ids = [rnd.randrange(len(rows)) for _ in range(rnd.choice([1, 8, 8, 11]))]
            sds = [rnd.choice(seeds) for _ in ids]
            r = guarded(how, lambda: jax.jit(jax.vmap(all_of))(stacked(ids, (len(ids),)), jnp.array(sds, jnp.uint32)), ids, sds)
            if r is not None:
                for k in range(len(ids)):
                    note(ids[k], sds[k], how, jax.tree_util.tree_map(lambda a: np.asarray(a)[k], r))
        elif how == "grid":
            ids = [rnd.randrange(len(rows)) for _ in range(6)]
            sd = rnd.choice(seeds)
            f = jax.jit(jax.vmap(jax.vmap(lambda x: all_of(x, jnp.uint32(sd)))))
            r = guarded(how, lambda: f(stacked(ids, (2, 3))), ids, [sd])
            if r is not None:
                for k in range(6):
                    note(ids[k], sd, how, jax.tree_util.tree_map(lambda a: np.asarray(a)[k // 3, k % 3], r))
        else:
            for i in rnd.sample(range(len(rows)), 3):
                sd = rnd.choice(seeds)
                seed_arg = rnd.choice([np.uint32, jnp.uint32] + ([int] if sd < 2**31 else []))(sd)
                try:
                    x = build(cls, {p: jnp.asarray(rows[i][p]) for p in rows[i]})
                    if how == "rebuilt":
                        leaves, td = jax.tree_util.tree_flatten(x)
                        x = jax.tree_util.tree_unflatten(td, [jnp.array(a) for a in leaves])
                    elif how == "indexed":
                        x = stacked([i, 0, i], (3,))[rnd.choice([0, 2])]
                    elif how == "reloaded":
                        with tempfile.TemporaryDirectory() as d:
                            x.save(os.path.join(d, "x.npz"))
                            x = cls.load(os.path.join(d, "x.npz"))
                except Exception as exc:  # noqa: BLE001
                    note(i, sd, how, None, "%s: %s: %s" % (how, type(exc).__name__, str(exc)[:150]))
                    continue
                fn = (lambda: jax.jit(lambda: all_of(x, seed_arg))()) if how == "closed" else (lambda: all_of(x, seed_arg))
                r = guarded(how, fn, [i], [sd])
                if r is not None:
                    note(i, sd, how, r)
                    if sd == 0 and how == "direct":
                        r = guarded("default seed", lambda: (x.hash(), x.hash_with_uint32ed(), x.hash_pair(), x.hash_pair_with_uint32ed(), x.bytes, x.uint32ed), [i], [0])
                        if r is not None:
                            note(i, 0, "default seed", r)


def functions(rec, path, seed, child_env=None):
    """Observations made here and in a child process, merged class by class."""
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    env = dict(os.environ, PYTHONHASHSEED=str(seed % 1000 + 1))
    env.update(child_env or {})
    limit = max(5, (rec.deadline or 30) - 8)
    fd, tmp = tempfile.mkstemp(prefix="hash_")
    p = subprocess.Popen([sys.executable, "-m", "harness.props.hashfn", path, str(seed), str(limit)], cwd=here, env=env,
                         stdout=fd, stderr=subprocess.PIPE, text=True)
    per = {}
    try:
        rnd = random.Random("%d:parent" % seed)
        idx = 0
        while not rec.out_of_time():
            out = []
            rec.pending("hashing class %d of seed %d" % (idx, seed))
            observe(seed, idx, path, rnd, out)
            per[idx] = out
            idx += 1
        _, err = p.communicate(timeout=300)
        if p.returncode:
            raise RuntimeError("child process: " + err[-2000:])
        with open(tmp) as fh:
            for line in fh:
                e = json.loads(line)
                e["how"] += " (another process)"
                per.setdefault(e["cls"], []).append(e)
    finally:
        if p.poll() is None:
            p.kill()
        os.close(fd)
        os.unlink(tmp)
    for i in sorted(per):
        rec.reset(cls=i)
        for e in per[i]:
            rec.ev("obs", **e)


def main():
    import time

    path, seed, limit = sys.argv[1], int(sys.argv[2]), float(sys.argv[3])
    t0, idx = time.time(), 0
    rnd = random.Random("%d:child" % seed)
    while time.time() - t0 < limit:
        out = []
        observe(seed, idx, path, rnd, out)
        for e in out:
            print(json.dumps(e), flush=True)
        idx += 1


if __name__ == "__main__":
    main()
