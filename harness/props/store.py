"""C17: saving and loading in a scratch directory."""
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import zipfile

import numpy as np
import jax.numpy as jnp
from xtructure import FieldDescriptor, io as xio, xtructure_dataclass

from harness import zoo
from harness.props import bits, fields, hashfn


@xtructure_dataclass
class Low:
    """Low-precision and unusual dtypes."""

    a: FieldDescriptor.tensor(dtype=jnp.bfloat16, shape=(3,), fill_value=0)
    b: FieldDescriptor.scalar(dtype=jnp.float16)
    c: FieldDescriptor.scalar(dtype=jnp.float8_e4m3fn, default=0)
    d: FieldDescriptor.tensor(dtype=jnp.float8_e5m2, shape=(2,), fill_value=0)
    e: FieldDescriptor.scalar(dtype=jnp.int4, default=0)
    f: FieldDescriptor.scalar(dtype=jnp.bool_)
    g: FieldDescriptor.tensor(dtype=jnp.int16, shape=(2, 2))
    h: FieldDescriptor.tensor(dtype=jnp.complex64, shape=(), fill_value=0)


@xtructure_dataclass
class LowTwin:
    """The same fields as Low under another name."""

    a: FieldDescriptor.tensor(dtype=jnp.bfloat16, shape=(3,), fill_value=0)
    b: FieldDescriptor.scalar(dtype=jnp.float16)
    c: FieldDescriptor.scalar(dtype=jnp.float8_e4m3fn, default=0)
    d: FieldDescriptor.tensor(dtype=jnp.float8_e5m2, shape=(2,), fill_value=0)
    e: FieldDescriptor.scalar(dtype=jnp.int4, default=0)
    f: FieldDescriptor.scalar(dtype=jnp.bool_)
    g: FieldDescriptor.tensor(dtype=jnp.int16, shape=(2, 2))
    h: FieldDescriptor.tensor(dtype=jnp.complex64, shape=(), fill_value=0)


@xtructure_dataclass
class Names:
    """Field names that other layers use too."""

    file: FieldDescriptor.scalar(dtype=jnp.uint32, default=0)
    data: FieldDescriptor.tensor(dtype=jnp.uint8, shape=(5,), bits=3, fill_value=0)
    bits: FieldDescriptor.scalar(dtype=jnp.int32, bits=20, default=0)
    path: FieldDescriptor.tensor(dtype=jnp.float32, shape=(0,), fill_value=0)


@xtructure_dataclass
class Widths:
    """Declared widths up to the full range of every integer dtype."""

    a: FieldDescriptor.scalar(dtype=jnp.bool_, bits=1)
    b: FieldDescriptor.tensor(dtype=jnp.uint8, shape=(3,), bits=2, fill_value=0)
    c: FieldDescriptor.tensor(dtype=jnp.uint8, shape=(2, 2), bits=8, fill_value=0)
    d: FieldDescriptor.tensor(dtype=jnp.uint16, shape=(3,), bits=13, fill_value=0)
    e: FieldDescriptor.scalar(dtype=jnp.uint32, bits=32, default=0)
    f: FieldDescriptor.scalar(dtype=jnp.int32, bits=31, default=0)
    g: FieldDescriptor.tensor(dtype=jnp.uint32, shape=(3,), bits=17, fill_value=0)


@xtructure_dataclass
class Deep:
    """Records inside records, one of them an array of records."""

    low: FieldDescriptor.scalar(dtype=Low)
    wid: FieldDescriptor.tensor(dtype=Widths, shape=(2,))
    k: FieldDescriptor.scalar(dtype=jnp.uint8, default=0)


@xtructure_dataclass
class Part:
    """A part of Joined."""

    a: FieldDescriptor.scalar(dtype=jnp.uint8, default=0)
    b: FieldDescriptor.tensor(dtype=jnp.uint8, shape=(3,), bits=3, fill_value=0)
    a_b: FieldDescriptor.scalar(dtype=jnp.uint8, default=0)


@xtructure_dataclass
class Joined:
    """Field names that meet when joined with others, or differ in case alone."""

    a: FieldDescriptor.scalar(dtype=jnp.uint8, default=0)
    x: FieldDescriptor.scalar(dtype=Part)
    X: FieldDescriptor.scalar(dtype=Part)
    x_a: FieldDescriptor.scalar(dtype=Part)
    x_b: FieldDescriptor.tensor(dtype=jnp.uint8, shape=(3,), bits=3, fill_value=0)
    x__a: FieldDescriptor.scalar(dtype=jnp.uint8, default=0)
    xa: FieldDescriptor.scalar(dtype=jnp.uint8, default=0)
    b: FieldDescriptor.tensor(dtype=jnp.uint8, shape=(3,), bits=3, fill_value=0)
    b_data: FieldDescriptor.tensor(dtype=jnp.uint8, shape=(2,), fill_value=0)
    b_bits: FieldDescriptor.tensor(dtype=jnp.uint8, shape=(1,), fill_value=0)
    b_shape: FieldDescriptor.tensor(dtype=jnp.int32, shape=(1,), fill_value=0)


OWN = [Low, LowTwin, Names, Widths, Deep, Joined]
ZOO = ["U32", "Mix", "Nest", "Packed", "Wide", "Tiny", "Bits", "Scal", "Deep", "Grid"]


def content(x):
    """Fields as the specification sees them."""
    out = []
    for p, a in zoo.leaves_of(x):
        a = np.asarray(a)
        raw = np.ascontiguousarray(a)
        out.append(dict(p=p, d=str(a.dtype), s=list(a.shape), b=raw.tobytes().hex()))
    return out


def random_leaf(rnd, shape, dt, nbits):
    n = int(np.prod(shape)) if shape else 1
    dt = np.dtype(dt)
    if nbits is not None:
        v = bits.rand_values(rnd, n, nbits, rnd.choice(["random", "edges", "alternating"]))
        return np.array(v, np.uint64).reshape(shape).astype(dt)
    if dt.kind == "b":
        return np.array([rnd.random() < 0.5 for _ in range(n)], bool).reshape(shape)
    if dt.kind in "iu":
        lo, hi = np.iinfo(dt).min, np.iinfo(dt).max
        return np.array([rnd.choice([lo, hi, rnd.randint(lo, hi)]) for _ in range(n)], dt).reshape(shape)
    if dt.name in ("int4", "uint4"):
        return np.array([rnd.randint(-8 if dt.name == "int4" else 0, 7) for _ in range(n)], np.int32).reshape(shape).astype(dt)
    v = np.array([rnd.choice([0.0, -0.0, 1.5, -2.0, rnd.uniform(-100, 100), 0.25]) for _ in range(n)])
    if dt.kind == "c":
        v = v + 1j * np.array([rnd.uniform(-5, 5) for _ in range(n)])
    return v.reshape(shape).astype(dt)


def random_record(rnd, cls, batch):
    from xtructure.core.field_descriptors import get_field_descriptors

    kw = {}
    for name, fd in get_field_descriptors(cls).items():
        shape = tuple(batch) + tuple(fd.intrinsic_shape)
        if hasattr(fd.dtype, "__dataclass_fields__"):
            kw[name] = random_record(rnd, fd.dtype, shape)
        else:
            kw[name] = jnp.asarray(random_leaf(rnd, shape, jnp.dtype(fd.dtype), fd.bits))
    return cls(**kw)


DECK, TREES = [], []


def from_deck(rnd):
    """The classes of this harness in a random order, so that each is met before any returns."""
    if not DECK:
        DECK.extend([c for c in OWN + [zoo.kind(n, 2, 0).cls for n in ZOO]])
        rnd.shuffle(DECK)
    return DECK.pop()


def classes(rnd, count):
    """Two or more different record classes."""
    out = []
    for _ in range(count):
        r = rnd.random()
        if r < 0.6:
            out.append(from_deck(rnd))
        elif r < 0.8:
            out.append(hashfn.tree_class("T%d" % len(TREES), rnd))
            TREES.append(out[-1])
        else:
            ls = []
            for _ in range(rnd.choice([1, 2, 4])):
                s = rnd.choice([[], [1], [3], [5], [2, 3]])
                ls.append(dict(b=rnd.randint(1, 32), n=int(np.prod(s)) if s else 1, s=s))
            c, _ = bits.make_class(ls, rnd, "x")
            register(c, bits)
            out.append(c)
    if rnd.random() < 0.1:
        out[:2] = [Low, LowTwin]
    if len(set(out)) < len(out):
        return classes(rnd, count)
    return out


def register(c, mod):
    from xtructure.core.field_descriptors import get_field_descriptors

    setattr(sys.modules[mod.__name__], c.__name__, c)
    for fd in get_field_descriptors(c).values():
        if hasattr(fd.dtype, "__dataclass_fields__"):
            register(fd.dtype, mod)


def cname(c):
    return "%s.%s" % (c.__module__, c.__name__)


JUNK = ["text", "empty", "no_metadata", "unknown_class", "unknown_module", "not_a_record_class", "truncated", "member_missing", "metadata_cut", "raw_npy"]


def write_junk(rnd, kind, path, cls, tmp):
    """Puts something that is not a saved record at path."""
    if os.path.exists(path):
        os.unlink(path)
    if kind == "text":
        with open(path, "w") as fh:
            fh.write("hello")
    elif kind == "empty":
        open(path, "w").close()
    elif kind == "raw_npy":
        with open(path, "wb") as fh:
            np.save(fh, np.arange(3))
    elif kind == "no_metadata":
        with open(path, "wb") as fh:
            np.savez(fh, a=np.arange(3))
    elif kind in ("unknown_class", "unknown_module", "not_a_record_class"):
        m, c = {"unknown_class": ("harness.zoo", "Nobody"), "unknown_module": ("harness.nowhere", "U32"),
                "not_a_record_class": ("harness.zoo", "Kind")}[kind]
        with open(path, "wb") as fh:
            np.savez(fh, x=np.uint32(1), __xtructure_class_module__=np.array(m), __xtructure_class_name__=np.array(c))
    else:
        xio.save(tmp, random_record(rnd, cls, ()))
        if kind == "truncated":
            raw = open(tmp, "rb").read()
            with open(path, "wb") as fh:
                fh.write(raw[: len(raw) - rnd.randint(1, min(200, len(raw) - 1))])
        else:
            drop = None
            with zipfile.ZipFile(tmp) as z:
                names = z.namelist()
                meta = [n for n in names if n.startswith("__xtructure_class")]
                plain = [n for n in names if n not in meta and not n.endswith(".dtype.npy")]
                drop = rnd.choice(meta if kind == "metadata_cut" else plain)
                with zipfile.ZipFile(path, "w") as o:
                    for n in names:
                        if n != drop:
                            o.writestr(n, z.read(n))
        os.unlink(tmp)


class Dir:
    """A scratch directory and the ways of naming a file in it."""

    def __init__(self, rnd):
        self.rnd = rnd
        self.root = tempfile.mkdtemp(prefix="store_")
        os.chdir(self.root)

    def canon(self, stem):
        return os.path.join(self.root, stem + ".npz")

    def name(self, stem):
        """Some way to name the file."""
        import pathlib

        n = stem + rnd_suffix(self.rnd)
        r = self.rnd.random()
        if r < 0.5:
            n = os.path.join(self.root, n)
        return pathlib.Path(n) if self.rnd.random() < 0.15 else n

    def ls(self):
        out = []
        for base, _, fs in os.walk(self.root):
            for f in fs:
                p = os.path.relpath(os.path.join(base, f), self.root)
                out.append(p[:-4] if p.endswith(".npz") else p + " (no .npz ending)")
        return sorted(out)

    def close(self):
        os.chdir("/")
        shutil.rmtree(self.root, ignore_errors=True)


def rnd_suffix(rnd):
    return ".npz" if rnd.random() < 0.6 else ""


def do_load(rec, d, stem, via, by_name, how="here"):
    c = by_name.get(via)
    name = d.name(stem)
    rec.pending("load %s through %s" % (stem, via or "io"))
    r, err = rec.call(lambda: xio.load(name) if c is None else c.load(name))
    kw = dict(s=stem, via=via, how=how, err=err)
    if not err:
        kw.update(c=cname(type(r)), x=content(r))
    rec.ev("load", **kw)


def do_save(rec, rnd, d, stem, x, c):
    packed = rnd.random() < 0.6
    name = d.name(stem)
    rec.pending("save %s" % cname(c))
    if rnd.random() < 0.5:
        _, err = rec.call(lambda: xio.save(name, x, packed=packed) if not packed or rnd.random() < 0.5 else xio.save(name, x))
    else:
        _, err = rec.call(lambda: x.save(name, packed=packed))
    rec.ev("save", s=stem, c=cname(c), x=content(x), packed=packed, err=err)


def histories(rec, path, seed):
    """Histories of the model, with classes, contents, names and kinds of junk filled in."""
    with open(path) as fh:
        hs = json.load(fh)
    rnd = random.Random(seed)
    rnd.shuffle(hs)
    for i, h in enumerate(hs):
        if rec.out_of_time():
            return
        if i % 4 == 0:
            two = classes(rnd, 2)
            names = {"X": cname(two[0]), "Y": cname(two[1]), "": ""}
            by_name = {cname(c): c for c in two}
            b = rnd.choice([(), (3,), (2, 2), (0,)])
            pool = {(k, v): random_record(rnd, two["XY".index(k)], b if v == 1 else rnd.choice([b, (2,)])) for k in "XY" for v in (1, 2)}
        d = Dir(rnd)
        try:
            rec.reset()
            stems = {"a": "a", "b": rnd.choice(["b", "sub/b", "a.b", "a.npz.x"])}
            for e in h:
                s = stems[e["s"]]
                if e["op"] == "save":
                    k = (e["r"]["c"], e["r"]["x"])
                    do_save(rec, rnd, d, s, pool[k], two["XY".index(k[0])])
                elif e["op"] == "load":
                    do_load(rec, d, s, names[e["via"]] if "via" in e else names[e["d"]], by_name)
                elif e["op"] == "remove":
                    if os.path.exists(d.canon(s)):
                        os.unlink(d.canon(s))
                    rec.ev("remove", s=s)
                elif e["op"] == "copy":
                    if os.path.exists(d.canon(s)):
                        os.makedirs(os.path.dirname(d.canon(stems[e["d"]])), exist_ok=True)
                        shutil.copyfile(d.canon(s), d.canon(stems[e["d"]]))
                    rec.ev("copy", s=s, d=stems[e["d"]])
                elif e["op"] == "junk":
                    os.makedirs(os.path.dirname(d.canon(s)), exist_ok=True)
                    jk = rnd.choice(JUNK)
                    write_junk(rnd, jk, d.canon(s), rnd.choice(two), os.path.join(d.root, "tmp.npz"))
                    rec.ev("junk", s=s, kind=jk)
            rec.ev("ls", names=d.ls())
            for s in stems.values():
                for via in ("", names["X"], names["Y"]):
                    if rnd.random() < 0.6:
                        do_load(rec, d, s, via, by_name)
        finally:
            d.close()


def long_histories(rec, seed, child=True):
    """Many classes, files, batch shapes and values; ends with loading everything in another process."""
    rnd = random.Random(seed)
    last = False
    while not last:
        cs = classes(rnd, rnd.choice([2, 3, 5]))
        by_name = {cname(c): c for c in cs}
        d = Dir(rnd)
        last = rec.out_of_time()
        try:
            rec.reset()
            stems = ["s%d" % i for i in range(rnd.choice([1, 3, 6]))] + ["deep/er/f", "x.y"]
            there = set()
            for _ in range(30):
                if rec.out_of_time():
                    last = True
                    break
                s, r = rnd.choice(stems), rnd.random()
                if r < 0.45:
                    c = rnd.choice(cs)
                    x, err = rec.call(random_record, rnd, c, rnd.choice([(), (), (1,), (3,), (2, 2), (0,), (40,)]))
                    if err:
                        rec.ev("save", s=s, c=cname(c), x=[], err="building: " + err)
                        continue
                    do_save(rec, rnd, d, s, x, c)
                    there.add(s)
                elif r < 0.85:
                    do_load(rec, d, s, rnd.choice(["", ""] + list(by_name)), by_name)
                elif r < 0.9:
                    what = rnd.choice([5, "x", None, {"a": 1}, np.zeros(3), cs[0]])
                    if what is cs[0]:
                        what = 7
                    _, err = rec.call(lambda: xio.save(d.name(s), what))
                    rec.ev("badsave", s=s, err=err)
                elif r < 0.95 and there:
                    s = rnd.choice(sorted(there))
                    if os.path.exists(d.canon(s)):
                        os.unlink(d.canon(s))
                    there.discard(s)
                    rec.ev("remove", s=s)
                else:
                    os.makedirs(os.path.dirname(d.canon(s)), exist_ok=True)
                    jk = rnd.choice(JUNK)
                    write_junk(rnd, jk, d.canon(s), rnd.choice(cs), os.path.join(d.root, "tmp.npz"))
                    there.add(s)
                    rec.ev("junk", s=s, kind=jk)
            rec.ev("ls", names=d.ls())
            if last and child:
                # the classes other processes can find: those defined in modules
                todo = sorted(s for s in there)
                p = subprocess.run([sys.executable, "-m", "harness.props.store", d.root] + todo, capture_output=True, text=True,
                                   cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), timeout=200)
                if p.returncode:
                    raise RuntimeError("child process: " + p.stderr[-2000:])
                for line in p.stdout.splitlines():
                    if line.startswith("{"):
                        e = json.loads(line)
                        if "harness.props.bits" in e["err"] or "harness.props.hashfn" in e["err"]:
                            continue  # a class made at run time
                        rec.ev("load", **e)
        finally:
            d.close()


def main():
    root, stems = sys.argv[1], sys.argv[2:]
    for s in stems:
        try:
            r = xio.load(os.path.join(root, s + ".npz"))
            e = dict(s=s, via="", how="another process", err="", c=cname(type(r)), x=content(r))
            if e["c"].startswith("__main__"):
                e["c"] = "harness.props.store" + e["c"][8:]
        except Exception as exc:  # noqa: BLE001
            e = dict(s=s, via="", how="another process", err="%s: %s" % (type(exc).__name__, str(exc)[:200]))
        print(json.dumps(e))


if __name__ == "__main__":
    main()
