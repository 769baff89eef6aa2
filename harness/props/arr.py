"""Driver of real record batches for C11, C13, C14 (and reused by C19): runs programs of batch operations and
records events; judges nothing.  A numpy twin on id arrays keeps the programs inside the scope of the properties
(shapes, ranges); a program is abandoned when the real result has another shape (the event is recorded first).
"""
import json
import random

import numpy as np

from harness import zoo

SCALAR_KINDS = {"U32", "Tiny", "Scal", "Plain"}
KINDS = ["Mix", "Nest", "Packed", "Deep", "Wide", "Scal", "U32", "Bits", "Plain", "Tiny", "Grid"]
CAP = 96  # most records in one array


# ------------------------------------------------------------------ numpy twin (scope and generation only)
def np_index(ix):
    out = []
    for it in ix:
        if it["k"] == "i":
            out.append(it["v"])
        elif it["k"] == "n":
            out.append(None)
        elif it["k"] == "s":
            out.append(slice(*[(x[0] if x else None) for x in (it["st"], it["sp"], it["by"])]))
        else:
            out.append(np.asarray(it["d"], dtype=bool if it["k"] == "m" else np.int64).reshape(it["s"]))
    return tuple(out)


def inline(v):
    return np.asarray(v["d"], dtype=np.int64).reshape(v["s"])


def pad_widths(r, form, w):
    if form == "int":
        return [(w[0], w[0])] * r
    if form == "pair":
        return [(w[0], w[1])] + [(0, 0)] * (r - 1)
    if form == "pairs":
        return [(w[2 * k], w[2 * k + 1]) for k in range(r)]
    return [(w[k], w[k]) for k in range(r)]


def twin(e, xs):
    """Results of the operation on id arrays."""
    op, a = e["op"], xs[0] if xs else None
    if op == "show":
        return [a]
    if op == "concat":
        return [np.stack(xs) if a.ndim == 0 else np.concatenate(xs, e["ax"])]
    if op == "stack":
        return [np.stack(xs, e["ax"])]
    if op in ("vstack", "hstack", "dstack", "column_stack"):
        return [getattr(np, op)(xs)]
    if op == "block":
        byreg = dict(zip(e["in"], xs))
        return [np.atleast_2d(np.block([[byreg[k] for k in row] for row in e["rows"]]))]
    if op == "split":
        return np.split(a, e["at"][0] if e["form"] == "sections" else e["at"], e["ax"])
    if op == "pad":
        b = np.atleast_1d(a)
        w = pad_widths(b.ndim, e["form"], e["w"])
        if not any(map(any, w)):
            return [a]
        kw = dict(constant_values=e["fill"]) if e["mode"] == "constant" else {}
        return [np.pad(b, w, e["mode"], **kw)]
    if op == "reshape":
        return [a.reshape(e["ns"])]
    if op == "flatten":
        return [a.reshape(-1)]
    if op == "transpose":
        return [np.transpose(a, e["axes"] or None)]
    if op == "swapaxes":
        return [np.swapaxes(a, *e["axes"])]
    if op == "moveaxis":
        return [np.moveaxis(a, e["axes"], e["dst"])]
    if op == "expand_dims":
        return [np.expand_dims(a, e["ax"])]
    if op == "squeeze":
        return [np.squeeze(a, tuple(e["axes"]))]
    if op == "broadcast_to":
        return [np.broadcast_to(a, e["ns"])]
    if op == "broadcast_arrays":
        return list(np.broadcast_arrays(*xs))
    if op == "atleast":
        return [[None, np.atleast_1d, np.atleast_2d, np.atleast_3d][e["n"]](x) for x in xs]
    if op == "take":
        return [np.take(a, inline(e["v"][0]), e["ax"])]
    if op == "take_along_axis":
        ind = inline(e["v"][0])
        t = list(a.shape)
        t[e["ax"]] = ind.shape[e["ax"]]
        return [np.take_along_axis(a, np.broadcast_to(ind, t), e["ax"])]
    if op == "repeat":
        return [np.repeat(a, e["reps"][0] if e["form"] == "int" else e["reps"], e["ax"])]
    if op == "tile":
        return [np.tile(a, e["reps"])]
    if op == "roll":
        return [np.roll(a, e["sh"], e["axes"])]
    if op == "flip":
        return [np.flip(a, e["axes"])]
    if op == "rot90":
        return [np.rot90(a, e["n"], e["axes"])]
    if op == "full_like":
        return [np.full_like(a, e["fill"])]
    if op == "where":
        return [np.where(inline(e["v"][0]).astype(bool), a, xs[1])]
    if op == "get":
        return [a[np_index(e["ix"])]]
    if op == "set":
        b = a.copy()
        b[np_index(e["ix"])] = xs[1] if len(xs) == 2 else inline(e["v"][0])
        return [b]
    if op == "upd":
        b = a.copy()
        n, rest = len(e["cond"]), a.shape[len(e["tup"]) if e["form"] == "tuple" else 1:]
        if e["form"] == "slice":
            pos = [(p,) for p in np.arange(a.shape[0])[np_index(e["ix"])].tolist()]
            n = len(pos)
        elif e["form"] == "tuple":
            pos = list(zip(*e["tup"]))
        else:
            pos = [(p,) for p in e["pos"]]
        v = np.broadcast_to(xs[1] if len(xs) == 2 else inline(e["v"][0]), (n,) + rest)
        for k in reversed(range(n)):
            if (e["cond"][k] if len(e["cond"]) == n else e["cond"][0]) and all(0 <= p < s for p, s in zip(pos[k], a.shape)):
                b[pos[k]] = v[k]
        return [b]
    raise AssertionError(op)


# ------------------------------------------------------------------ the real code
METHODS = {"reshape", "flatten", "transpose", "swapaxes", "moveaxis", "expand_dims", "squeeze", "broadcast_to", "roll", "flip",
           "rot90", "pad", "equal", "not_equal", "allclose"}


class Arr:
    def __init__(self, rec, kind, rnd, jit=0.15):
        self.rec, self.kind, self.rnd, self.jit = rec, kind, rnd, jit
        self.regs, self.ids = [], []

    def reset(self, **kw):
        self.regs, self.ids = [], []
        self.rec.reset(kind=self.kind.cls.__name__, **kw)

    def put(self, ids):
        ids = np.asarray(ids, dtype=np.int64)
        self.regs.append(self.kind.enc(ids))
        self.ids.append(ids)
        self.rec.ev("put", s=list(ids.shape), d=ids.reshape(-1).tolist())
        return len(self.regs)

    def describe(self, x):
        o = dict(s=[], d=[], bad="")
        try:
            ids = self.kind.dec(x)
        except zoo.Malformed as exc:
            o["bad"] = str(exc)
            return o
        o["s"], o["d"] = list(ids.shape), ids.reshape(-1).tolist()
        if not self.kind.plain:
            b = x.shape.batch
            o["b"] = list(b) if isinstance(b, tuple) else [-99]
            o["kind"] = x.structured_type.name
            for f, g in (("len", lambda: len(x)), ("nd", lambda: x.ndim)):
                try:
                    o[f] = int(g())
                except TypeError:
                    o[f] = -99
        return o

    # -------------------------------------------------------------- one operation
    def run(self, e):
        """Execute, record, extend the registers. Returns False if the program cannot go on."""
        rnd = self.rnd
        e = dict(e)
        e["in"] = e.get("in", [1])
        fn, extra = self.callable(e)
        jitted = rnd.random() < self.jit and e["op"] not in ("eq", "ne", "show", "allclose")
        self.rec.pending("%s %s" % (e["op"], json.dumps({k: v for k, v in e.items() if k != "op"}, default=str)[:300]))

        def go():
            f = fn
            if jitted:
                import jax

                f = jax.jit(fn)
            r = f(*[self.regs[k - 1] for k in e["in"]], *extra)
            if e["op"] in ("eq", "ne", "allclose"):
                return [], bool(r)
            if e["op"] in ("equal", "not_equal"):
                return [], self.reduce(r, all if e["op"] == "equal" else any)
            outs = list(r) if isinstance(r, (list, tuple)) and not hasattr(r, "is_xtructed") else [r]
            return [(o, self.describe(o)) for o in outs], None

        r, err = self.rec.call(go)
        outs, res = r if not err else ([], None)
        self.rec.ev(e.pop("op"), err=err, jit=jitted, out=[d for _, d in outs], **({} if res is None else {"res": res}), **e)
        return outs, err

    def refuse(self, e):
        """Arguments that do not fit: is the operation refused?"""
        rnd = self.rnd
        e = dict(e)
        fn, extra = self.callable(dict(e, op=e["what"]))
        jitted = rnd.random() < self.jit
        self.rec.pending("refuse %s" % e)

        def go():
            import jax

            r = (jax.jit(fn) if jitted else fn)(*[self.regs[k - 1] for k in e["in"]], *extra)
            return jax.block_until_ready(r)

        _, err = self.rec.call(go)
        self.rec.ev(e.pop("op"), err="", refused=bool(err), why=err[:100], jit=jitted, **e)

    def step(self, e):
        """run + keep the twin in step; False if the observed shapes differ (or an error)."""
        outs, err = self.run(e)
        if e["op"] in ("eq", "ne", "allclose", "equal", "not_equal"):
            return not err
        want = twin(e, [self.ids[k - 1] for k in e["in"]])
        if err or len(want) != len(outs) or any(d["bad"] or tuple(d["s"]) != w.shape for (_, d), w in zip(outs, want)):
            return False
        if e["op"] != "show":
            for (o, _), w in zip(outs, want):
                self.regs.append(o)
                self.ids.append(np.array(w))
        return True

    def reduce(self, r, how):
        """A record of booleans (or an array) -> one boolean per record."""
        if self.kind.plain:
            return np.asarray(r).reshape(-1).tolist()
        got = None
        lv = dict(zoo.leaves_of(r))
        for name, _, ishape, _ in self.kind.schema:
            a = np.asarray(lv[name])
            if a.dtype != np.bool_:
                raise zoo.Malformed("comparison of %s is %s" % (name, a.dtype))
            a = a.reshape((-1, int(np.prod(ishape, dtype=int))))
            a = a.all(1) if how is all else a.any(1)
            got = a if got is None else (got & a if how is all else got | a)
        return got.tolist()

    def ixarray(self, ind, dtype=None):
        """An integer array in one of the forms a user may write."""
        import jax.numpy as jnp

        rnd = self.rnd
        ind = np.asarray(ind, np.int64)
        lo, hi = (int(ind.min()), int(ind.max())) if ind.size else (0, 0)
        opts = ["int32", "int16", "int8"] + (["uint8", "uint32", "uint16"] if lo >= 0 else [])
        opts = [o for o in opts if np.iinfo(o).min <= lo and hi <= np.iinfo(o).max]
        dt = dtype or (rnd.choice(opts) if rnd.random() < 0.35 else "int32")
        return np.asarray(ind, dt) if rnd.random() < 0.2 else jnp.asarray(ind.astype(dt))

    def index(self, ix):
        import jax.numpy as jnp

        out = []
        for it, n in zip(ix, np_index(ix)):
            if it["k"] == "a":
                n = self.ixarray(n)
            elif it["k"] == "m" and self.rnd.random() < 0.5:
                n = jnp.asarray(n)
            out.append(n)
        return out[0] if len(out) == 1 and self.rnd.random() < 0.7 else tuple(out)

    def value(self, e):
        """The value operand of set/upd: (extra call arguments, scalar or None)."""
        if len(e["in"]) == 2:
            return None
        c = e["c"]
        return c

    def callable(self, e):
        import jax.numpy as jnp
        from xtructure import numpy as xnp

        rnd, op = self.rnd, e["op"]
        method = op in METHODS and not self.kind.plain and rnd.random() < 0.5
        e["via"] = "method" if method else "function"

        def f(name, *a, **kw):
            if method:
                return lambda x: getattr(x, name)(*a, **kw)
            return lambda x: getattr(xnp, name)(x, *a, **kw)

        def axis(axes):
            return axes[0] if len(axes) == 1 and rnd.random() < 0.6 else tuple(axes)

        if op == "show":
            return (lambda x: x), []
        if op == "concat":
            name = rnd.choice(["concat", "concatenate"])
            return (lambda *xs: getattr(xnp, name)(list(xs), axis=e["ax"])), []
        if op == "stack":
            return (lambda *xs: xnp.stack(list(xs), axis=e["ax"])), []
        if op in ("vstack", "hstack", "dstack", "column_stack"):
            return (lambda *xs: getattr(xnp, op)(list(xs))), []
        if op == "block":
            return (lambda *xs: xnp.block([[dict(zip(e["in"], xs))[k] for k in row] for row in e["rows"]])), []
        if op == "split":
            at = e["at"][0] if e["form"] == "sections" else (list(e["at"]) if rnd.random() < 0.5 else np.array(e["at"], np.int32))
            return (lambda x: xnp.split(x, at, axis=e["ax"])), []
        if op == "pad":
            w = {"int": lambda: e["w"][0], "pair": lambda: tuple(e["w"]),
                 "pairs": lambda: tuple(zip(e["w"][::2], e["w"][1::2])), "ints": lambda: tuple(e["w"])}[e["form"]]()
            kw = {"constant_values": e["c"]} if "c" in e else {}
            if e["mode"] == "constant" and rnd.random() < 0.5:
                return f("pad", w, **kw), []
            return f("pad", w, mode=e["mode"], **kw), []
        if op == "reshape":
            ns = tuple(e["ns"])
            return (f("reshape", *ns) if method and rnd.random() < 0.4 else f("reshape", ns if len(ns) != 1 or rnd.random() < 0.6 else ns[0])), []
        if op == "flatten":
            return (f("flatten") if method else (lambda x, g=rnd.choice([xnp.flatten, xnp.ravel]): g(x))), []
        if op == "transpose":
            return (f("transpose") if not e["axes"] and rnd.random() < 0.5 else f("transpose", tuple(e["axes"]) or None)), []
        if op == "swapaxes":
            return f("swapaxes", *e["axes"]), []
        if op == "moveaxis":
            if len(e["axes"]) == 1 and rnd.random() < 0.6:
                return f("moveaxis", e["axes"][0], e["dst"][0]), []
            return f("moveaxis", tuple(e["axes"]), tuple(e["dst"])), []
        if op == "expand_dims":
            return f("expand_dims", e["ax"]), []
        if op == "squeeze":
            return f("squeeze", axis(e["axes"])), []
        if op == "broadcast_to":
            return f("broadcast_to", tuple(e["ns"])), []
        if op == "broadcast_arrays":
            return (lambda *xs: xnp.broadcast_arrays(*xs)), []
        if op == "atleast":
            return (lambda *xs: getattr(xnp, "atleast_%dd" % e["n"])(*xs)), []
        if op == "take":
            ind = inline(e["v"][0])
            ind = int(ind) if ind.ndim == 0 and rnd.random() < 0.7 else self.ixarray(ind)
            return (lambda x: xnp.take(x, ind, axis=e["ax"])), []
        if op == "take_along_axis":
            ind = self.ixarray(inline(e["v"][0]), None)
            return (lambda x: xnp.take_along_axis(x, ind, axis=e["ax"])), []
        if op == "take_by":
            ind = inline(e["v"][0])
            ind = int(ind) if ind.ndim == 0 and rnd.random() < 0.7 else self.ixarray(ind)
            kw = {"fill_value": e["c"]} if "c" in e else {}
            if e["mode"] != "fill" or rnd.random() < 0.5:
                kw["mode"] = e["mode"]
            return (lambda x: xnp.take(x, ind, axis=e["ax"], **kw)), []
        if op == "take_along_by":
            ind = self.ixarray(inline(e["v"][0]), None)
            kw = {"fill_value": e["c"]} if "c" in e else {}
            if e["mode"] != "fill" or rnd.random() < 0.5:
                kw["mode"] = e["mode"]
            return (lambda x: xnp.take_along_axis(x, ind, axis=e["ax"], **kw)), []
        if op == "plain":
            return self.plain_form(e), []
        if op == "option":
            return self.with_option(e["fn"], e["opt"]), []
        if op == "mixed":
            return self.mixed(e["fn"], e["opt"]), []
        if op == "repeat":
            reps = e["reps"][0] if e["form"] == "int" else np.array(e["reps"], np.int32)
            return (lambda x: xnp.repeat(x, reps, axis=e["ax"])), []
        if op == "tile":
            reps = e["reps"][0] if len(e["reps"]) == 1 and rnd.random() < 0.5 else tuple(e["reps"])
            return (lambda x: xnp.tile(x, reps)), []
        if op == "roll":
            return (f("roll", e["sh"][0], e["axes"][0]) if len(e["axes"]) == 1 and rnd.random() < 0.6
                    else f("roll", tuple(e["sh"]), tuple(e["axes"]))), []
        if op == "flip":
            return f("flip", axis(e["axes"])), []
        if op == "rot90":
            return f("rot90", e["n"], tuple(e["axes"])), []
        if op == "full_like":
            c = e["c"]
            alt = [lambda x: xnp.full_like(x, c), (xnp.zeros_like if c == 0 else xnp.ones_like)]
            return (lambda x, g=rnd.choice(alt): g(x)), []
        if op == "where":
            cond = inline(e["v"][0]).astype(bool)
            cond = (bool(cond) if cond.ndim == 0 and rnd.random() < 0.5 else jnp.asarray(cond))
            return (lambda x, y: xnp.where(cond, x, y)), []
        if op == "get":
            ix = self.index(e["ix"])
            return (lambda x: x[ix]), []
        if op == "set":
            ix = self.index(e["ix"])
            if len(e["in"]) == 2:
                return (lambda x, v: x.at[ix].set(v)), []
            return (lambda x: x.at[ix].set(e["c"])), []
        if op == "upd":
            return self.upd_callable(e)
        if op in ("eq", "ne"):
            return ((lambda x, y: x == y) if op == "eq" else (lambda x, y: x != y)), []
        if op in ("equal", "not_equal", "allclose"):
            if method:
                return (lambda x, y: getattr(x, op)(y)), []
            return (lambda x, y: getattr(xnp, op)(x, y)), []
        raise AssertionError(op)

    def plain_form(self, e):
        from xtructure import numpy as xnp

        w, rnd = e["what"], self.rnd
        if w == "take":
            ind = self.ixarray(inline(e["v"][0]))
            return lambda x: xnp.take(x, ind)
        if w == "repeat":
            return lambda x: xnp.repeat(x, e["reps"][0])
        if w == "repeat_total":
            reps = e["reps"][0] if e["form"] == "int" else np.array(e["reps"], np.int32)
            return lambda x: xnp.repeat(x, reps, axis=e["ax"], total_repeat_length=e["n"])
        if w == "roll":
            return lambda x: xnp.roll(x, e["sh"][0])
        if w == "flip":
            return xnp.flip
        if w == "squeeze":
            return xnp.squeeze
        if w == "ravelF":
            g = rnd.choice([xnp.ravel, xnp.flatten])
            return lambda x: g(x, order="F")
        return lambda x: xnp.reshape(x, tuple(e["ns"]), order="F")

    def with_option(self, fn, opt):
        """A record batch given an option that only plain arrays have."""
        import jax.numpy as jnp
        from xtructure import numpy as xnp

        g = getattr(xnp, fn)
        kw = {opt: dict(dtype=jnp.float32, order="F", copy=True, size=2, fill_value=1, out=jnp.zeros((1,)), total_repeat_length=2, shape=(2,))[opt]}
        lead = {"concatenate": lambda x: ([x, x],), "stack": lambda x: ([x, x],), "reshape": lambda x: (x, (-1,)),
                "where": lambda x: (jnp.ones(x.shape.batch, bool), x, x), "take": lambda x: (x, jnp.array([0]), 0), "repeat": lambda x: (x, 2, 0),
                "full_like": lambda x: (x, 1)}.get(fn, lambda x: (x,))
        return lambda x: g(*lead(x), **kw)

    def mixed(self, fn, how):
        """Record batches together with an array, or with records of another class."""
        import jax.numpy as jnp
        from xtructure import numpy as xnp

        g = getattr(xnp, fn)
        s = self.ids[0].shape
        other = zoo.kind("Scal" if self.kind.cls.__name__ != "Scal" else "U32", 64, 1).enc(np.zeros(s, np.int64) + 3)
        arr = jnp.arange(self.ids[0].size).reshape(s)
        yes, ix = jnp.ones(s, bool), jnp.array([0])
        first = jnp.array([True])
        if fn == "where":
            return {"array_record": lambda x: g(yes, arr, x), "other_class": lambda x: g(yes, x, other), "alone": lambda x: g(yes, x)}[how]
        if fn == "where_no_broadcast":
            return lambda x: g(yes, x, other)
        if fn == "update_on_condition":
            return {"array_record": lambda x: g(arr, ix, first, x[:1]), "other_class": lambda x: g(x, ix, first, other[:1])}[how]
        args = {"record_array": lambda x: (x, arr), "array_record": lambda x: (arr, x), "other_class": lambda x: (x, other),
                "third_array": lambda x: (x, x, arr), "empty": lambda x: ()}[how]
        if fn in ("equal", "not_equal", "isclose", "allclose"):
            return lambda x: g(*args(x))
        return lambda x: g(list(args(x)))

    def upd_callable(self, e):
        import jax.numpy as jnp
        from xtructure import numpy as xnp

        rnd = self.rnd
        via = e.get("by") or rnd.choice(["function", "at"])
        if self.kind.plain:
            via = "function"
        if e["form"] == "slice":
            via, ix = "at", np_index(e["ix"])[0]
        elif e["form"] == "tuple":
            ix = tuple(self.ixarray(t) for t in e["tup"])
        else:
            ix = self.ixarray(e["pos"])
        cond = np.asarray(e["cond"], bool)
        if via == "at" and e["form"] == "array" and len(e["pos"]) == 1 and e["pos"][0] >= 0 and rnd.random() < 0.4:
            ix, cond = int(e["pos"][0]), cond[0]
        elif via == "at" and e["form"] != "tuple" and len(set(e["cond"])) == 1 and rnd.random() < 0.4:
            cond = cond[0]
        elif e["form"] == "slice" and len(e["cond"]) == 1:
            cond = np.broadcast_to(cond, (len(np.arange(self.ids[e["in"][0] - 1].shape[0])[ix]),))
        cond = jnp.asarray(cond)
        e["via"] = via
        scalar = e.get("c")

        def go(x, *v):
            val = v[0] if v else scalar
            if via == "at":
                return x.at[ix].set_as_condition(cond, val)
            return xnp.update_on_condition(x, ix, cond, val)

        return go, []


# ------------------------------------------------------------------ random operations within scope
class Gen:
    def __init__(self, arr, rnd, families):
        self.a, self.rnd, self.fam = arr, rnd, families
        name = arr.kind.cls.__name__
        self.plain = arr.kind.plain
        self.scal = self.plain or all(not sh for _, _, sh, _ in arr.kind.schema)
        self.ids = lambda shape: np.array([rnd.randrange(arr.kind.n) for _ in range(int(np.prod(shape, dtype=int)))], np.int64).reshape(shape)
        del name

    def shape(self, rank=None, lo=1, hi=4, cap=40):
        r = self.rnd.choice([0, 1, 1, 2, 2, 3]) if rank is None else rank
        while True:
            s = tuple(self.rnd.randint(lo, hi) for _ in range(r))
            if np.prod(s, dtype=int) <= cap:
                return s

    def pick(self, ok):
        c = [k for k, x in enumerate(self.a.ids, 1) if ok(x)]
        return self.rnd.choice(c[-6:] if self.rnd.random() < 0.6 else c) if c else None

    def new(self, shape):
        return self.a.put(self.ids(shape))

    def one(self):
        """Pick a random operation that applies. Returns an event or None."""
        rnd = self.rnd
        op = rnd.choice(self.fam)
        e = getattr(self, "g_" + op)()
        if e is None:
            return None
        e["op"] = op
        e.setdefault("in", [e.pop("x")] if "x" in e else [1])
        e.pop("x", None)
        try:
            w = twin(e, [self.a.ids[k - 1] for k in e["in"]]) if op not in ("eq", "ne", "equal", "not_equal", "allclose") else []
        except (ValueError, IndexError) as exc:
            raise AssertionError("generator left the scope: %s %s" % (e, exc))
        if (op != "upd" and sum(x.size for x in w) > CAP) or any(x.ndim > 5 for x in w):
            return None
        return e

    def axis(self, k):
        return self.rnd.randrange(self.a.ids[k - 1].ndim)

    def fill(self, e):
        c = self.rnd.choice([0, 1])
        e["c"], e["fill"] = c, self.a.kind.fill[c]
        return e

    # rearrangement
    def g_concat(self):
        rnd = self.rnd
        if rnd.random() < 0.2 and not self.plain:
            k = self.pick(lambda x: x.ndim == 0) or self.new(())
            return dict([("in", [k] + [self.new(()) for _ in range(rnd.randint(1, 2))]), ("ax", 0)])
        k = self.pick(lambda x: x.ndim >= 1)
        if not k:
            return None
        ax = self.axis(k)
        others = []
        for _ in range(rnd.randint(0, 2)):
            s = list(self.a.ids[k - 1].shape)
            s[ax] = rnd.randint(0, 3)
            others.append(self.new(s))
        ins = others + [k]
        rnd.shuffle(ins)
        return dict([("in", ins), ("ax", ax - (self.a.ids[k - 1].ndim if rnd.random() < 0.4 and not self.plain else 0))])

    def g_stack(self):
        k = self.pick(lambda x: x.size <= 24)
        if not k:
            return None
        x = self.a.ids[k - 1]
        ins = [k] + [self.new(x.shape) for _ in range(self.rnd.randint(0, 2))]
        self.rnd.shuffle(ins)
        return dict([("in", ins), ("ax", self.rnd.randint(0, x.ndim))])

    def _xstack(self, minrank, ok=lambda x: True):
        k = self.pick(lambda x: x.size <= 24 and x.ndim >= (0 if self.scal else minrank) and ok(x))
        return None if not k else dict([("in", [k, self.new(self.a.ids[k - 1].shape)])])

    def g_vstack(self):
        return self._xstack(2)

    def g_hstack(self):
        return self._xstack(2)

    def g_dstack(self):
        return self._xstack(3)

    def g_column_stack(self):
        return self._xstack(2, lambda x: x.ndim in (1, 2))

    def g_block(self):
        if not self.scal:
            return None
        k = self.pick(lambda x: x.ndim in (1, 2) and x.size <= 12)
        if not k:
            return None
        m = self.new(self.a.ids[k - 1].shape)
        rows = self.rnd.choice([[[k, m]], [[k], [m]], [[m, k], [k, m]]])
        return dict([("in", [k, m]), ("rows", rows)])

    def g_split(self):
        k = self.pick(lambda x: x.ndim >= 1)
        if not k:
            return None
        ax = self.axis(k)
        n = self.a.ids[k - 1].shape[ax]
        if self.rnd.random() < 0.5:
            d = [m for m in range(1, n + 1) if n % m == 0] or [1]
            return dict(x=k, ax=ax, form="sections", at=[self.rnd.choice(d)])
        return dict(x=k, ax=ax, form="at", at=sorted(self.rnd.randint(0, n) for _ in range(self.rnd.randint(1, 3))))

    def g_pad(self):
        rnd = self.rnd
        k = self.pick(lambda x: x.size <= 20 and (x.ndim or not self.plain))
        if not k:
            return None
        x = self.a.ids[k - 1]
        r = max(1, x.ndim)
        forms = ["int", "pairs"] if self.plain else ["int", "pair", "pairs"] + (["ints"] if r != 2 else [])
        form = rnd.choice(forms)
        w = [rnd.randint(0, 2) for _ in range({"int": 1, "pair": 2, "pairs": 2 * r, "ints": r}[form])]
        e = dict(x=k, form=form, w=w, mode=rnd.choice(["constant", "constant", "edge", "wrap", "reflect", "symmetric"] if x.size else ["constant"]), fill=0)
        if e["mode"] == "constant" and rnd.random() < 0.35:
            self.fill(e)
        return e

    def g_reshape(self):
        rnd = self.rnd
        k = self.pick(lambda x: x.ndim >= 1)
        if not k:
            return None
        n = self.a.ids[k - 1].size
        ns, rest = [], n
        if n == 0:
            ns = rnd.choice([[0], [0, 2], [3, 0]])
        else:
            for _ in range(rnd.randint(0, 3)):
                d = rnd.choice([m for m in range(1, rest + 1) if rest % m == 0])
                ns.append(d)
                rest //= d
            ns.insert(rnd.randint(0, len(ns)), rest)
            if rnd.random() < 0.4:
                ns[rnd.randrange(len(ns))] = -1
        return dict(x=k, ns=ns)

    def g_flatten(self):
        k = self.pick(lambda x: x.ndim >= 1)
        return k and dict(x=k)

    def g_transpose(self):
        k = self.pick(lambda x: x.ndim >= 1)
        if not k:
            return None
        ax = list(range(self.a.ids[k - 1].ndim))
        self.rnd.shuffle(ax)
        return dict(x=k, axes=ax if self.rnd.random() < 0.7 else [])

    def g_swapaxes(self):
        k = self.pick(lambda x: x.ndim >= 1)
        if not k:
            return None
        r = self.a.ids[k - 1].ndim
        return dict(x=k, axes=[self.rnd.randrange(-r, r), self.rnd.randrange(-r, r)])

    def g_moveaxis(self):
        k = self.pick(lambda x: x.ndim >= 1)
        if not k:
            return None
        r = self.a.ids[k - 1].ndim
        n = self.rnd.randint(1, r)
        return dict(x=k, axes=self.rnd.sample(range(r), n), dst=self.rnd.sample(range(r), n))

    def g_expand_dims(self):
        k = self.pick(lambda x: x.ndim <= 3)
        return k and dict(x=k, ax=self.rnd.randint(0, self.a.ids[k - 1].ndim))

    def g_squeeze(self):
        k = self.pick(lambda x: 1 in x.shape)
        if not k:
            return None
        ones = [i for i, d in enumerate(self.a.ids[k - 1].shape) if d == 1]
        return dict(x=k, axes=self.rnd.sample(ones, self.rnd.randint(1, len(ones))))

    def g_broadcast_to(self):
        k = self.pick(lambda x: x.size <= 12) if self.scal else None
        if not k:
            return None
        s = [self.rnd.randint(1, 3) if d == 1 else d for d in self.a.ids[k - 1].shape]
        return dict(x=k, ns=[self.rnd.randint(1, 3) for _ in range(self.rnd.randint(0, 1))] + s)

    def g_broadcast_arrays(self):
        k = self.pick(lambda x: x.size <= 12) if self.scal else None
        if not k:
            return None
        s = [1 if self.rnd.random() < 0.4 else d for d in self.a.ids[k - 1].shape]
        ins = [k, self.new(s[self.rnd.randint(0, len(s)):] if s else ())]
        self.rnd.shuffle(ins)
        return dict([("in", ins)])

    def g_atleast(self):
        n = self.rnd.randint(1, 3)
        k = self.pick(lambda x: self.scal or x.ndim >= n)
        if not k:
            return None
        ins = [k] + ([self.new(self.a.ids[k - 1].shape)] if self.rnd.random() < 0.3 else [])
        return dict([("in", ins), ("n", n)])

    def g_take(self):
        k = self.pick(lambda x: x.ndim >= 1 and x.size)
        if not k:
            return None
        ax = self.axis(k)
        n = self.a.ids[k - 1].shape[ax]
        s = self.rnd.choice([(), (self.rnd.randint(0, 5),), (2, 2)])
        d = [self.rnd.randrange(-n, n) for _ in range(int(np.prod(s, dtype=int)))]
        return dict(x=k, ax=ax, v=[dict(s=list(s), d=d)])

    def g_take_along_axis(self):
        k = self.pick(lambda x: x.ndim >= 1 and x.size)
        if not k:
            return None
        ax = self.axis(k)
        s = list(self.a.ids[k - 1].shape)
        n = s[ax]
        if not self.plain:
            s = [1 if self.rnd.random() < 0.3 else d for d in s]
        s[ax] = self.rnd.randint(1, 4)
        return dict(x=k, ax=ax, v=[dict(s=s, d=[self.rnd.randrange(-n, n) for _ in range(int(np.prod(s)))])])

    def g_repeat(self):
        k = self.pick(lambda x: x.ndim >= 1)
        if not k:
            return None
        ax = self.axis(k)
        n = self.a.ids[k - 1].shape[ax]
        if self.rnd.random() < 0.5 or n == 0:
            return dict(x=k, ax=ax, form="int", reps=[self.rnd.randint(0, 3)])
        return dict(x=k, ax=ax, form="seq", reps=[self.rnd.randint(0, 3) for _ in range(n)])

    def g_tile(self):
        k = self.pick(lambda x: True) if self.scal else None
        return k and dict(x=k, reps=[self.rnd.randint(1, 3) for _ in range(self.rnd.randint(1, 3))])

    def g_roll(self):
        k = self.pick(lambda x: x.ndim >= 1 and x.size)
        if not k:
            return None
        r = self.a.ids[k - 1].ndim
        axes = self.rnd.sample(range(r), self.rnd.randint(1, min(2, r)))
        return dict(x=k, axes=axes, sh=[self.rnd.randint(-6, 6) for _ in axes])

    def g_flip(self):
        k = self.pick(lambda x: x.ndim >= 1)
        if not k:
            return None
        r = self.a.ids[k - 1].ndim
        return dict(x=k, axes=self.rnd.sample(range(r), self.rnd.randint(1, r)))

    def g_rot90(self):
        k = self.pick(lambda x: x.ndim >= 2)
        return k and dict(x=k, n=self.rnd.randint(-2, 5), axes=self.rnd.sample(range(self.a.ids[k - 1].ndim), 2))

    def g_full_like(self):
        k = self.pick(lambda x: True)
        return k and self.fill(dict(x=k))

    # indexing
    def g_where(self):
        rnd = self.rnd
        k = self.pick(lambda x: True)
        s = self.a.ids[k - 1].shape
        y = self.new(s if rnd.random() < 0.8 else ())
        cs = s if self.scal and rnd.random() < 0.7 else ()
        d = [rnd.random() < 0.5 for _ in range(int(np.prod(cs, dtype=int)))]
        return dict([("in", [k, y]), ("v", [dict(s=list(cs), d=d)])])

    def item(self, n, arrays=None):
        rnd = self.rnd
        z = rnd.random()
        if arrays is not None and n and z < 0.5:
            s, distinct = arrays
            m = int(np.prod(s, dtype=int))
            d = [rnd.randrange(n) for _ in range(m)]
            return dict(k="a", s=list(s), d=[p - n if rnd.random() < 0.2 else p for p in d])
        if n and z < 0.65:
            return dict(k="i", v=rnd.randrange(-n, n))

        def opt(a, b):
            return [rnd.randint(a, b)] if rnd.random() < 0.6 else []

        by = [rnd.choice([-3, -2, -1, 1, 2, 3])] if rnd.random() < 0.4 else []
        return dict(k="s", st=opt(-n - 1, n + 1), sp=opt(-n - 1, n + 1), by=by)

    def ix(self, s):
        rnd = self.rnd
        z = rnd.random()
        if z < 0.2:
            r = rnd.randint(1, len(s))
            lead = rnd.randint(0, len(s) - r)
            ms = s[lead:lead + r]
            m = dict(k="m", s=list(ms), d=[rnd.random() < 0.5 for _ in range(int(np.prod(ms)))])
            return [dict(k="s", st=[], sp=[], by=[])] * lead + [m]
        arrays = None
        if z < 0.6:
            arrays = (rnd.choice([(1,), (2,), (3,), (2, 2), (0,), (2, 1)]), False)
        ix = [self.item(n, arrays) for n in s[: rnd.randint(1, len(s))]]
        if rnd.random() < 0.15:
            ix.insert(rnd.randint(0, len(ix)), dict(k="n"))
        return ix

    def g_get(self):
        k = self.pick(lambda x: x.ndim >= 1 and x.size)
        return k and dict(x=k, ix=self.ix(self.a.ids[k - 1].shape))

    def g_set(self):
        rnd = self.rnd
        k = self.pick(lambda x: x.ndim >= 1 and x.size)
        if not k:
            return None
        x = self.a.ids[k - 1]
        ix = self.ix(x.shape)
        src = np.arange(x.size).reshape(x.shape)[np_index(ix)]
        if len(set(src.reshape(-1).tolist())) != src.size:
            return None
        if rnd.random() < 0.3:
            e = self.fill(dict(x=k, ix=ix))
            e["v"] = [dict(s=[], d=[e.pop("fill")])]
            return e
        s = list(src.shape)
        z = rnd.random()
        if z < 0.2:
            s = []
        elif z < 0.4:
            s = [1 if rnd.random() < 0.4 else d for d in s]
            # a leading axis may be missing too
            s = s[1:] if s and rnd.random() < 0.3 else s
        return dict([("in", [k, self.new(s)]), ("ix", ix)])

    def g_upd(self):
        rnd = self.rnd
        k = self.pick(lambda x: x.ndim >= 1 and x.size)
        if not k:
            return None
        x = self.a.ids[k - 1]
        n0 = x.shape[0]
        form = rnd.choice(["array", "array", "tuple", "slice"] if not self.plain else ["array", "tuple"])
        e = dict(form=form, tup=[], pos=[], ix=[])
        used = 1
        if form == "array":
            m = rnd.choice([1, 1, 2, 3, 5, 8])
            e["pos"] = [rnd.randrange(n0) if rnd.random() < 0.8 else rnd.choice([-1, n0, n0 + 3, -n0, 100]) for _ in range(m)]
        elif form == "tuple":
            used = rnd.randint(1, x.ndim)
            m = rnd.choice([1, 2, 3, 5, 8])
            e["tup"] = [[rnd.randrange(d) for _ in range(m)] for d in x.shape[:used]]
        else:
            it = self.item(n0)
            while it["k"] != "s":
                it = self.item(n0)
            e["ix"] = [it]
            m = len(np.arange(n0)[np_index([it])])
        e["cond"] = [rnd.random() < 0.6 for _ in range(m)]
        if form == "slice" and (m == 0 or rnd.random() < 0.3):
            e["cond"] = [rnd.random() < 0.7]
        z = rnd.random()
        if z < 0.25:
            e["x"] = k
            self.fill(e)
            e["v"] = [dict(s=[], d=[e.pop("fill")])]
            return e
        e["in"] = [k, self.new((m,) + x.shape[used:] if z < 0.9 else ())]
        return e

    # comparison
    def _cmp(self, same=False):
        k = self.pick(lambda x: x.size)
        x = self.a.ids[k - 1].copy()
        f = x.reshape(-1)
        for _ in range(0 if same else self.rnd.choice([0, 1, 1, 2])):
            f[self.rnd.randrange(f.size)] = self.rnd.randrange(self.a.kind.n)
        return dict([("in", [k, self.a.put(x)])])

    def g_eq(self):
        return None if self.plain else self._cmp()

    def g_ne(self):
        return None if self.plain else self._cmp()

    def g_equal(self):
        return self._cmp()

    def g_not_equal(self):
        return self._cmp()

    def g_allclose(self):
        return self._cmp(True)


REARRANGE = ["concat", "concat", "stack", "vstack", "hstack", "dstack", "column_stack", "block", "split", "pad", "pad", "reshape",
             "flatten", "transpose", "swapaxes", "moveaxis", "expand_dims", "squeeze", "broadcast_to", "broadcast_arrays",
             "atleast", "take", "take_along_axis", "repeat", "tile", "roll", "flip", "rot90", "full_like"]
INDEX = ["get", "get", "set", "set", "where", "eq", "ne", "equal", "not_equal", "allclose"]


def programs(rec, kinds, families, programs, steps, seed, jit=0.15):
    """Random programs; every register is read again at the end."""
    rnd = random.Random(seed)
    for p in range(programs):
        if rec.out_of_time():
            return
        name = kinds[p % len(kinds)]
        kind = zoo.kind(name, 64, seed % 5, near=p % 2 == 1 and name not in ("Plain", "Script"))
        a = Arr(rec, kind, rnd, jit)
        fam = [f for f in families if not (kind.plain and f in ("get", "set", "eq", "ne"))]
        g = Gen(a, rnd, fam)
        a.reset(seed=seed, program=p)
        for _ in range(3):
            g.new(g.shape())
        g.new(g.shape(rank=1))
        if "upd" in fam and p % 3 == 0:
            g.new(rnd.choice([(130,), (300,), (18, 20), (130, 3)]))
        done = tries = 0
        ok = True
        while done < steps and tries < 6 * steps and not rec.out_of_time():
            tries += 1
            e = g.one()
            if e is None:
                continue
            done += 1
            if not a.step(e):
                ok = False
                break
        if ok:
            for k in range(1, len(a.regs) + 1):
                if k <= 4 or rnd.random() < 0.3:
                    a.step({"op": "show", "in": [k]})


def interleave(rnd, cs):
    """Shuffled, but operations take turns, so that a prefix covers all of them."""
    rnd.shuffle(cs)
    by = {}
    for c in cs:
        by.setdefault((c["e"]["op"], c["e"].get("what"), c["e"].get("mode"), len(c["regs"][0]["s"]) > 1), []).append(c)
    out = []
    while by:
        for k in sorted(by, key=str):
            out.append(by[k].pop())
            if not by[k]:
                del by[k]
    return out


def cases(rec, kinds, path, count, seed, offset=0, stride=1, jit=0.1):
    """Cases enumerated by TLC (MCArr), one register file each."""
    with open(path) as fh:
        all_cases = json.load(fh)
    rnd = random.Random(seed)
    mine = interleave(rnd, all_cases[offset::stride])
    for n, c in enumerate(mine[:count]):
        if rec.out_of_time():
            return
        e = c["e"]
        op = e["op"]
        usable = [k for k in kinds if fits(k, e, c["regs"])]
        if not usable:
            continue
        # axes beyond the batch exist where every field has dimensions of its own
        name = "Wide" if op == "refuse" and e["what"] not in ("option", "mixed") and rnd.random() < 0.7 else usable[n % len(usable)]
        kind = zoo.kind(name, 64, seed % 5)
        a = Arr(rec, kind, rnd, jit)
        a.reset(case=n)
        if op in ("take_by", "take_along_by") and e["mode"] == "fill":
            v = rnd.choice(sorted(kind.fill))
            e = dict(e, c=v, fill=kind.fill[v])
        for r in c["regs"]:
            a.put(np.asarray(r["d"], np.int64).reshape(r["s"]))
        if op == "refuse":
            a.refuse(e)
        else:
            a.run(e)
        for k in range(1, len(a.regs) + 1):
            a.run({"op": "show", "in": [k]})


def fits(name, e, regs):
    """May this case be run on records of this class (see the scope of C13/C14)?"""
    op, r = e["op"], len(regs[0]["s"])
    scal = name in SCALAR_KINDS
    if op == "refuse":
        return name != "Plain"
    if op == "plain":
        return name == "Plain"
    if name == "Plain":
        if op in ("get", "set"):
            return False
        if op == "pad" and (e["form"] in ("pair", "ints") or not r):
            return False
        if op == "concat" and not r:
            return False
    if scal:
        return True
    if op in ("tile", "block", "broadcast_to", "broadcast_arrays"):
        return False
    if op == "atleast":
        return r >= e["n"]
    if op in ("vstack", "hstack", "column_stack"):
        return r >= 2
    if op == "dstack":
        return r >= 3
    if op == "where":
        return e["v"][0]["s"] == []
    return True


def upd_cases(rec, kinds, path, count, seed, forms=("array", "tuple", "rows")):
    """Cases enumerated by TLC (MCUpd)."""
    with open(path) as fh:
        all_cases = json.load(fh)
    rnd = random.Random(seed)
    rnd.shuffle(all_cases)
    for n, c in enumerate(all_cases[:count]):
        if rec.out_of_time():
            return
        kind = zoo.kind(kinds[n % len(kinds)], 64, seed % 5)
        a = Arr(rec, kind, rnd, 0.1)
        a.reset(case=n)
        m = len(c["pos"])
        form = forms[n // len(kinds) % len(forms)]
        e = dict(op="upd", form="array", pos=c["pos"], cond=c["cond"], tup=[], ix=[])
        e["in"] = [1, 2]
        if form == "tuple" and all(0 <= p < 3 for p in c["pos"]):
            # the same positions in a batch of rank two (2 x 2, position 3 never named)
            a.put(np.arange(1, 5).reshape(2, 2))
            e.update(form="tuple", tup=[[p // 2 for p in c["pos"]], [p % 2 for p in c["pos"]]])
            a.put(10 + np.arange(m))
        elif form == "rows":
            a.put(np.arange(1, 7).reshape(3, 2))
            a.put(10 + np.arange(2 * m).reshape(m, 2))
        else:
            a.put(np.arange(1, 4))
            a.put(10 + np.arange(m))
        a.run(e)
        a.run({"op": "show", "in": [1]})


def edges(rec, kinds, sizes, rounds, seed):
    """Conditional updates of batches whose length is about a power of two, near the ends of narrow index types."""
    rnd = random.Random("edges-%s" % seed)
    for t in range(rounds):
        kind = zoo.kind(kinds[t % len(kinds)], 64, seed % 5)
        for n in sizes:
            if rec.out_of_time():
                return
            a = Arr(rec, kind, rnd, 0.5)
            a.reset(n=n)
            a.put(np.arange(n) % 30)
            near = [0, 0, 1, n - 1, n - 2, n // 2, n // 2 - 1] + [n // 2 + 1, 5, n - 7]
            m = rnd.choice([1, 3, 9, 33]) if n < 5000 else rnd.choice([3, 9])
            pos = [min(n - 1, max(0, rnd.choice(near) if rnd.random() < 0.8 else rnd.randrange(n))) for _ in range(m)]
            if rnd.random() < 0.5:
                pos = [p if rnd.random() < 0.8 else rnd.choice([n, n + 1, -1, 2 * n]) for p in pos]
            e = dict(op="upd", form="array", pos=pos, cond=[rnd.random() < 0.7 for _ in pos], tup=[], ix=[])
            e["in"] = [1, 2]
            a.put(np.array([30 + rnd.randrange(34) for _ in pos]))
            if not a.run(e):
                return
