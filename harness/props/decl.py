"""C20: declarations and construction checks, tried out on the real library."""
import itertools
import json
import random
import typing

import numpy as np

from harness.props.fields import Struct

COUNT = [0]
_RECS = {}


def rec_class(kind="Rec"):
    """Record classes used as field types: plain, with widths, with a packed tensor."""
    if kind not in _RECS:
        import jax.numpy as jnp
        from xtructure import FieldDescriptor, xtructure_dataclass

        ann = {"Rec": dict(a=FieldDescriptor.scalar(dtype=jnp.uint8), b=FieldDescriptor.tensor(dtype=jnp.float32, shape=(2,))),
               "Other": dict(a=FieldDescriptor.scalar(dtype=jnp.uint8), b=FieldDescriptor.tensor(dtype=jnp.float32, shape=(2,))),
               "Bits": dict(a=FieldDescriptor.scalar(dtype=jnp.uint8, bits=3), b=FieldDescriptor.tensor(dtype=jnp.uint8, shape=(5,), bits=1))}[kind]
        c = type("R" + kind, (), {"__module__": __name__})
        c.__annotations__ = ann
        _RECS[kind] = xtructure_dataclass(c)
    return _RECS[kind]


def F(shape, dtype):
    return 1


def G(shape, dtype):
    return 2


def V(value):
    return None


def W(value):
    return None


BY_NAME = dict(F=F, G=G, V=V, W=W)


def dt(d, rnd):
    import jax.numpy as jnp

    if d == "Rec":
        return rec_class()
    return rnd.choice([jnp.dtype(d), getattr(jnp, d if d != "bool" else "bool_")])


OTHER = itertools.cycle(["3", 3.0, 2.5, np.float32(3)])


def width(w):
    return None if w["t"] == "none" else w["v"] if w["t"] == "int" else next(OTHER)


def name_of(x):
    if x is None:
        return ""
    for k, v in BY_NAME.items():
        if v is x:
            return k
    return "?"


def dname(d):
    if d is None:
        return ""
    if d is rec_class():
        return "Rec"
    return str(np.dtype(d))


def fill_text(f):
    if f is None:
        return "None"
    if isinstance(f, (bool, np.bool_)):
        return str(bool(f))
    f = float(f)
    return "inf" if f == float("inf") else str(int(f)) if f == int(f) else str(f)


def wtext(w):
    return Struct(dict(t="none", v=0)) if w is None else Struct(dict(t="int", v=int(w))) if isinstance(w, int) else Struct(dict(t="other", v=3))


def repr_of(d):
    return json.dumps(d, default=lambda o: o.tolist(), sort_keys=True)


def attrs(get):
    us = get("unpacked_intrinsic_shape")
    return dict(d=dname(get("dtype")), s=list(get("intrinsic_shape")), f=fill_text(get("fill_value")), g=name_of(get("fill_value_factory")),
                w=wtext(get("bits")), p=wtext(get("packed_bits")), u=dname(get("unpacked_dtype")), us=[-1] if us is None else list(us),
                v=name_of(get("validator")))


def describe(a, rnd, fd_cls):
    """A declaration from abstract arguments, through one of the ways to write it."""
    kw = {}
    if a["g"]:
        kw["fill_value_factory"] = BY_NAME[a["g"]]
    if width(a["w"]) is not None or rnd.random() < 0.3:
        kw["bits"] = width(a["w"])
    if width(a["p"]) is not None or rnd.random() < 0.3:
        kw["packed_bits"] = width(a["p"])
    if a["u"]:
        kw["unpacked_dtype"] = dt(a["u"], rnd)
    if a["v"]:
        kw["validator"] = BY_NAME[a["v"]]
    d, s, f = dt(a["d"], rnd), tuple(a["s"]), int(a["f"]) if a["f"] else None
    ways = ["ctor", "tensor"] + (["scalar"] if not s else [])
    if not kw:
        ways += ["getitem"] * 3
    how = rnd.choice(ways)
    if how == "ctor":
        return fd_cls(d, s, f, **kw) if rnd.random() < 0.5 else fd_cls(d, intrinsic_shape=s, fill_value=f, **kw)
    if how == "tensor":
        return fd_cls.tensor(d, s, fill_value=f, **kw)
    if how == "scalar":
        return fd_cls.scalar(d, default=f, **kw)
    if not s and f is None:
        return rnd.choice([lambda: fd_cls[d], lambda: fd_cls[d,], lambda: fd_cls[d, ()]])()
    if f is None:
        return fd_cls[d, s]
    if not s and rnd.random() < 0.5:
        return fd_cls[d, f]
    return fd_cls[d, s, f]


def describe_packed(a, rnd, fd_cls):
    kw = dict(packed_bits=width(a["p"]))
    if a["hs"]:
        kw["shape"] = tuple(a["s"])
    if a["hu"]:
        kw["unpacked_shape"] = tuple(a["us"])
    if a["f"]:
        kw["fill_value"] = int(a["f"])
    if a["g"]:
        kw["fill_value_factory"] = BY_NAME[a["g"]]
    if a["u"]:
        kw["unpacked_dtype"] = dt(a["u"], rnd)
    if a["v"]:
        kw["validator"] = BY_NAME[a["v"]]
    return fd_cls.packed_tensor(**kw)


def cases(rec, path, seed, share=(0, 1)):
    from xtructure import FieldDescriptor
    from xtructure.core.field_descriptor_utils import (broadcast_intrinsic_shape, clone_field_descriptor, descriptor_metadata,
                                                       with_intrinsic_shape)

    rnd = random.Random(seed)
    with open(path) as fh:
        todo = json.load(fh)[share[0]::share[1]]
    random.Random(7).shuffle(todo)
    for c in todo:
        if rec.out_of_time():
            break
        a = c["a"]
        rec.pending(json.dumps(c))
        if c["k"] in ("decl", "pack"):
            fd, err = rec.call((describe if c["k"] == "decl" else describe_packed), a, rnd, FieldDescriptor)
            got, meta = {}, {}
            if not err:
                got = attrs(lambda n: getattr(fd, n))
                md = descriptor_metadata(fd)
                meta = attrs(lambda n: md[n])
            rec.reset(text=c["k"])
            rec.ev(c["k"], a=Struct(a), err=err, got=Struct(got), meta=Struct(meta))
        elif c["k"] == "derive":
            fd, err = rec.call(describe, a, rnd, FieldDescriptor)
            rec.reset(text="derive")
            if err:
                rec.ev("decl", a=Struct(a), err=err, got=Struct({}), meta=Struct({}))
                continue
            first, before, outs = fd, attrs(lambda n: getattr(fd, n)), []
            for st in c["p"]:
                shape = rnd.choice([tuple, list])(st["s"])
                if st["op"] == "clone":
                    kw = {}
                    for k, v in st["o"].items():
                        key, val = {"d": ("dtype", lambda: dt(v, rnd)), "s": ("intrinsic_shape", lambda: rnd.choice([tuple, list])(v)),
                                    "f": ("fill_value", lambda: int(v)), "g": ("fill_value_factory", lambda: BY_NAME[v]),
                                    "v": ("validator", lambda: BY_NAME.get(v))}[k]
                        kw[key] = val()
                    new, err = rec.call(lambda: clone_field_descriptor(fd, **kw))
                elif st["op"] == "with":
                    new, err = rec.call(lambda: with_intrinsic_shape(fd, shape))
                else:
                    new, err = rec.call(lambda: broadcast_intrinsic_shape(fd, shape))
                outs.append(err)
                fd = fd if err else new
            rec.ev("derive", a=Struct(a), p=c["p"], outs=outs, got=Struct(attrs(lambda n: getattr(fd, n))),
                   same=repr_of(before) == repr_of(attrs(lambda n: getattr(first, n))))
        elif c["k"] == "class":
            one_class(rec, rnd, a)
        else:
            one_make(rec, rnd, a)


def one_class(rec, rnd, a):
    import jax.numpy as jnp
    from xtructure import FieldDescriptor, xtructure_dataclass

    ann = {}
    for j, kind in enumerate(a["fields"]):
        shape = rnd.choice([(), (3,), (2, 2)])
        fd = {"bits": lambda: FieldDescriptor.tensor(dtype=jnp.uint8, shape=shape, bits=rnd.randint(1, 8)),
              "plain": lambda: FieldDescriptor.tensor(dtype=rnd.choice([jnp.uint8, jnp.float32]), shape=shape),
              "packed": lambda: FieldDescriptor.packed_tensor(packed_bits=rnd.randint(1, 8), shape=(4,)),
              "recbits": lambda: FieldDescriptor.scalar(dtype=rec_class("Bits")),
              "recplain": lambda: FieldDescriptor.scalar(dtype=rec_class("Rec")),
              "arrbits": lambda: FieldDescriptor.tensor(dtype=rec_class("Bits"), shape=(2,))}[kind]()
        if a["extra"] == "annotated" and rnd.random() < 0.7:
            fd = typing.Annotated[typing.Any, fd]
        ann["f%d" % j] = fd
    if a["extra"] == "unannotated":
        ann["zz"] = rnd.choice([int, jnp.uint8, "int", typing.Annotated[int, "x"]])
    if a["extra"] == "reserved":
        ann[rnd.choice(["replace", "to_tuple", "from_tuple"])] = FieldDescriptor.scalar(dtype=jnp.uint8, bits=2)
    items = list(ann.items())
    rnd.shuffle(items)
    COUNT[0] += 1
    c = type("K%d" % COUNT[0], (), {"__module__": __name__})
    c.__annotations__ = dict(items)
    kw = dict(bitpack=a["mode"])
    if a["agg"] or rnd.random() < 0.3:
        kw["aggregate_bitpack"] = a["agg"]
    if rnd.random() < 0.3:
        kw["validate"] = rnd.random() < 0.5
    cls, err = rec.call(lambda: xtructure_dataclass(c, **kw) if rnd.random() < 0.5 else xtructure_dataclass(**kw)(c))
    ok = dict(packed=False, acc=False, names=[], want=[n for n, _ in items])
    if not err:
        views = [n for n, k in zip(["f%d" % j for j in range(9)], a["fields"]) if k == "packed"]
        ok.update(packed=hasattr(cls, "packed") and hasattr(cls, "Packed"), acc=all(hasattr(cls, n + "_unpacked") for n in views) and hasattr(cls, "set_unpacked"),
                  names=list(cls.__dataclass_fields__))
    rec.reset(text="class %s" % a)
    rec.ev("class", a=Struct(a), err=err, **ok)


class Refused(Exception):
    pass


def one_make(rec, rnd, fields, hows=("init", "replace", "check", "free")):
    """Construct one record from good and bad field contents."""
    import jax.numpy as jnp
    from xtructure import FieldDescriptor, xtructure_dataclass

    calls = []
    good, given, ann = {}, {}, {}
    for j, f in enumerate(fields):
        n = "f%d" % j
        kw = {}
        if f["v"] != "none":
            def validator(value, n=n, fails=f["v"] == "fails"):
                calls.append((n, value is given[n]))
                if fails and (value is given[n]):
                    raise rnd.choice([ValueError, TypeError, Refused])("refused by the validator")
            kw["validator"] = validator
        if f["r"]:
            cls_, other = rec_class("Rec"), rec_class("Other")
            batch = tuple(f["s"]) if rnd.random() < 0.7 else (2,) + tuple(f["s"])
            good[n] = cls_.default(tuple(f["s"]))
            given[n] = cls_.default(batch) if f["ok"] else rnd.choice([lambda: other.default(batch), lambda: np.zeros(3, np.uint8), lambda: None])()
            ann[n] = FieldDescriptor.tensor(dtype=cls_, shape=tuple(f["s"]), **kw) if f["s"] else FieldDescriptor.scalar(dtype=cls_, **kw)
        else:
            lib = rnd.choice([np, jnp])
            good[n] = np.zeros(tuple(f["s"]), np.dtype(jnp.dtype(f["d"])))
            given[n] = lib.asarray(np.ones(tuple(f["gs"]), np.dtype(jnp.dtype(f["gd"]))))
            ann[n] = FieldDescriptor.tensor(dtype=jnp.dtype(f["d"]), shape=tuple(f["s"]), **kw)
    how = rnd.choice(list(hows))
    COUNT[0] += 1
    c = type("M%d" % COUNT[0], (), {"__module__": __name__})
    c.__annotations__ = ann
    cls, err = rec.call(lambda: xtructure_dataclass(c, validate=True) if how in ("init", "replace") else xtructure_dataclass(c))
    obj = None
    if not err:
        def act():
            if how == "replace":
                start = cls(**good)
                calls.clear()
                return start.replace(**given)
            x = cls(**given)
            if how == "check":
                x.check_invariants()
            return x
        obj, err = rec.call(act)
    kept = obj is not None and all(getattr(obj, n) is v for n, v in given.items())
    rec.reset(text="construct by %s: %s" % (how, fields))
    rec.ev("make", how=how, fs=[Struct(f) for f in fields], err=err, kept=kept, calls=len({n for n, own in calls if own}))


def makes(rec, seed):
    """Records of many fields, most of them all right."""
    rnd = random.Random(seed)
    types = ["uint8", "uint32", "int32", "float32", "bool", "float16", "bfloat16", "int8", "uint16"]
    while not rec.out_of_time():
        fs = []
        bad = rnd.random() < 0.6
        n = rnd.randint(1, 7)
        worst = rnd.randrange(n)
        for j in range(n):
            s = [rnd.choice([1, 2, 3]) for _ in range(rnd.choice([0, 0, 1, 2, 3]))]
            b = [rnd.choice([0, 1, 2, 3]) for _ in range(rnd.choice([0, 0, 1, 2]))]
            d = rnd.choice(types)
            f = dict(r=False, d=d, s=s, gd=d, gs=b + s, ok=True, v=rnd.choice(["none", "none", "passes"]))
            if rnd.random() < 0.25:
                f = dict(r=True, d="", s=s[:2], gd="", gs=[], ok=True, v=f["v"])
            if bad and j == worst:
                how = rnd.choice(["dtype", "shape", "validator"])
                if how == "validator":
                    f["v"] = "fails"
                elif f["r"]:
                    f["ok"] = False
                elif how == "dtype":
                    f["gd"] = rnd.choice([t for t in types if t != d])
                else:
                    full = f["gs"]
                    f["gs"] = rnd.choice([full + [1], full[1:], [1] * len(full), full[::-1], [x + 1 for x in full], full[:-1]])
            fs.append(f)
        rec.pending("construct %s" % fs)
        one_make(rec, rnd, fs)
