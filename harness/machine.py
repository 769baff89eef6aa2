"""A machine that runs the programs of a kernel concurrently, one access to shared memory at a time.

Pallas' interpreter runs the programs of a grid one after another.  Here the same kernel function runs once per
program, each in its own thread, against shared memory made of plain arrays; before every access to it the
program waits to be chosen.  Who is chosen is the schedule: a sequence of program numbers, from the specification.
Memory is shared where an input is also an output; of other outputs the writers of every cell are kept, so that
programs which write the same cell are noticed.  An atomic operation is one access.  Nothing of the library is replaced, only `pallas_call` and what kernels may
use of Pallas: references, atomics, `program_id`.
"""
import itertools
import threading

import numpy as np

HERE = threading.local()


class Fault(Exception):
    """An access outside an array."""


class Ref:
    def __init__(self, machine, array, name, shared):
        self.m, self.array, self.name, self.shared = machine, array, name, shared
        self.writers = {}

    shape = property(lambda self: self.array.shape)
    dtype = property(lambda self: self.array.dtype)
    ndim = property(lambda self: self.array.ndim)

    def index(self, idx):
        idx = idx if isinstance(idx, tuple) else (idx,)
        out = []
        for axis, i in enumerate(idx):
            n = self.array.shape[axis] if axis < self.array.ndim else 0
            if i is Ellipsis or isinstance(i, slice):
                out.append(i)
                continue
            if hasattr(i, "start") and hasattr(i, "size"):          # pl.dslice
                lo, k = int(i.start), int(i.size)
                if lo < 0 or lo + k > n:
                    raise Fault("%s: slice %d+%d outside 0..%d" % (self.name, lo, k, n))
                out.append(slice(lo, lo + k))
                continue
            i = np.asarray(i)
            if np.any(i < 0) or np.any(i >= n):
                raise Fault("%s: index %s outside 0..%d" % (self.name, i, n))
            out.append(int(i) if i.ndim == 0 else i)
        return tuple(out)

    def read(self, idx):
        import jax.numpy as jnp

        return jnp.asarray(np.array(self.array[self.index(idx)]))

    def write(self, idx, val):
        at = self.index(idx)
        self.array[at] = np.asarray(val)
        mark = np.arange(self.array.size).reshape(self.array.shape)[at]
        for c in np.atleast_1d(mark).reshape(-1):
            self.writers.setdefault(int(c), set()).add(HERE.pid)

    def __getitem__(self, idx):
        if self.shared:
            self.m.wait(HERE.pid)
        return self.read(idx)

    def __setitem__(self, idx, val):
        if self.shared:
            self.m.wait(HERE.pid)
        self.write(idx, val)

    def get(self):
        return self[...]


def atomic(combine):
    def op(ref, idx, val, *, mask=None):
        if mask is not None and not np.any(np.asarray(mask)):
            return ref.read(idx)                                    # masked off: no access
        ref.m.wait(HERE.pid)
        old = ref.read(idx)
        new = combine(np.asarray(old), np.asarray(val))
        if mask is None or bool(np.all(np.asarray(mask))):
            ref.write(idx, new)
        else:
            ref.write(idx, np.where(np.asarray(mask), new, np.asarray(old)))
        return old

    return op


class Machine:
    """Runs one kernel call under a schedule; keeps what happened in `log`, `refs`, `fault`."""

    def __init__(self, schedule, rnd):
        self.schedule, self.rnd = list(schedule), rnd
        self.log, self.refs, self.fault = [], [], ""

    def wait(self, pid):
        self.back.release()
        self.go[pid].acquire()
        if self.stop:
            raise Fault("stopped")

    def call(self, kernel, *, grid, out_shape, input_output_aliases=None, **_):
        import jax

        single = not isinstance(out_shape, (tuple, list))
        shapes = [out_shape] if single else list(out_shape)
        grid = (grid,) if isinstance(grid, int) else tuple(grid)
        alias = dict(input_output_aliases or {})

        def run(*args):
            arrays = [np.array(a) for a in args]
            outs = []
            for o, s in enumerate(shapes):
                src = [i for i, k in alias.items() if k == o]
                if src:
                    arr = arrays[src[0]].copy()
                else:                                               # memory nobody has written yet
                    arr = np.empty(s.shape, s.dtype)
                    raw = np.frombuffer(self.rnd.randbytes(arr.nbytes), np.uint8).copy()
                    arr = (raw[: arr.size] & 1).astype(bool).reshape(s.shape) if arr.dtype == bool else raw.view(arr.dtype).reshape(s.shape)
                outs.append(Ref(self, arr, "out%d" % o, bool(src)))
            ins = [Ref(self, outs[alias[i]].array if i in alias else a, "in%d" % i, i in alias) for i, a in enumerate(arrays)]
            self.refs, self.ins = outs, ins
            progs = list(itertools.product(*[range(n) for n in grid]))
            self.go = [threading.Semaphore(0) for _ in progs]
            self.back = threading.Semaphore(0)
            self.stop = False
            alive = set(range(len(progs)))
            dead = []

            def body(p):
                HERE.pid, HERE.grid, HERE.ids = p, grid, progs[p]
                self.go[p].acquire()
                try:
                    if not self.stop:
                        with jax.disable_jit():
                            kernel(*ins, *outs)
                except Fault as exc:
                    if not self.stop:
                        self.fault = str(exc)
                except BaseException as exc:  # noqa: BLE001
                    self.error = exc
                dead.append(p)
                self.back.release()

            self.error = None
            threads = [threading.Thread(target=body, args=(p,), daemon=True) for p in range(len(progs))]
            for t in threads:
                t.start()
            for p in range(len(progs)):                             # up to everyone's first access
                self.go[p].release()
                self.back.acquire()
            while dead:
                alive.discard(dead.pop())
            order = iter(self.schedule)
            steps = 0
            while alive:
                p = next(order, None)
                if p is None:
                    p = self.rnd.choice(sorted(alive))
                if p not in alive:
                    continue
                self.log.append(p)
                self.go[p].release()
                self.back.acquire()
                while dead:
                    alive.discard(dead.pop())
                steps += 1
                if steps > 20000 or self.fault or self.error:
                    self.stop = True
                    for q in sorted(alive):
                        self.go[q].release()
                    for q in sorted(alive):
                        threads[q].join(30)
                    break
            if self.error is not None:
                raise self.error
            if steps > 20000:
                self.fault = self.fault or "the programs do not finish"
            import jax.numpy as jnp

            res = [jnp.asarray(r.array) for r in outs]
            return res[0] if single else type(out_shape)(res) if isinstance(out_shape, list) else tuple(res)

        return run


CURRENT = None


def install():
    """Route pallas_call to the machine in `CURRENT`. Call before the library is imported."""
    import jax
    from jax.experimental import pallas as pl
    from jax.experimental.pallas import triton

    def pallas_call(kernel, out_shape=None, **kw):
        return CURRENT.call(kernel, out_shape=out_shape, **kw)

    pl.pallas_call = pallas_call
    pl.program_id = lambda axis: jax.numpy.int32(HERE.ids[axis])
    pl.num_programs = lambda axis: jax.numpy.int32(HERE.grid[axis])
    pl.multiple_of = lambda x, *_: x
    jax.default_backend = lambda: "gpu"
    triton.atomic_or = atomic(lambda old, val: old | val)
    triton.atomic_and = atomic(lambda old, val: old & val)
    triton.atomic_xor = atomic(lambda old, val: old ^ val)
    triton.atomic_add = atomic(lambda old, val: old + val)
    triton.atomic_max = atomic(np.maximum)
    triton.atomic_min = atomic(np.minimum)
    triton.atomic_xchg = atomic(lambda old, val: val)
    triton.debug_barrier = lambda: None

    def atomic_cas(ref, cmp, val):
        ref.m.wait(HERE.pid)
        old = ref.read(...)
        if bool(np.all(np.asarray(old) == np.asarray(cmp))):
            ref.write(..., val)
        return old

    triton.atomic_cas = atomic_cas


def run(schedule, rnd, fn, *args, **kw):
    """Run fn with its kernels on a machine; returns (result, machine)."""
    global CURRENT
    import jax

    CURRENT = Machine(schedule, rnd)
    with jax.disable_jit():
        out = fn(*args, **kw)
    return out, CURRENT
