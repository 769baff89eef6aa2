"""Shared driver for the two sequence containers (stack, queue)."""
import json
import random

import numpy as np

from harness import zoo


class SeqDriver:
    """Drives real Stack/Queue values; every call is recorded, nothing is judged here."""

    def __init__(self, rec, container, kind):
        from xtructure import Queue, Stack

        self.rec, self.kind = rec, kind
        self.container = container
        self.cls = {"stack": Stack, "queue": Queue}[container]
        self.names = {"stack": ("push", "pop"), "queue": ("enqueue", "dequeue")}[container]
        self.h = []  # real values
        self.m = []  # scope bookkeeping only: (cap, used since clear, size)

    def reset(self, **kw):
        self.h, self.m = [], []
        self.rec.reset(kind=self.kind.cls.__name__, container=self.container, **kw)

    def _size(self, v, err):
        if err:
            return -1, err
        s, e = self.rec.call(lambda: int(v.size))
        return (s if not e else -1), e

    def _add(self, v, m):
        self.h.append(v)
        self.m.append(m)
        return len(self.h) - 1

    def new(self, cap):
        v, err = self.rec.call(self.cls.build, cap, self.kind.cls)
        size, err = self._size(v, err)
        self.rec.ev("new", cap=cap, size=size, err=err)
        return self._add(v, (cap, 0, 0))

    def put(self, h, ids, single=False, via=None):
        op = self.names[0]
        cap, used, n = self.m[h]
        items = self.kind.enc(ids[0] if single else ids)
        self.rec.pending("%s %s" % (op, ids))
        f = (lambda: getattr(self.h[h], op)(items)) if via is None else (lambda: via(self.h[h], items))
        v, err = self.rec.call(f)
        if err:
            v = self.h[h]
        size, err2 = self._size(v, err)
        self.rec.ev(op, h=h + 1, items=ids, single=single, size=size, err=err or err2)
        return self._add(v, (cap, used + len(ids), n + len(ids)))

    def _dec(self, out):
        def go():
            ids = self.kind.dec(out)
            if ids.ndim == 0:
                return [int(ids)], True
            if ids.ndim == 1:
                return ids.tolist(), False
            return [-3], False
        r, err = self.rec.call(go)
        return (r if not err else ([], False)), err

    def take(self, h, n, via=None, default_arg=False):
        op = self.names[1]
        cap, used, sz = self.m[h]
        self.rec.pending("%s %d" % (op, n))
        if via is not None:
            f = lambda: via(self.h[h])
        elif default_arg:
            f = lambda: getattr(self.h[h], op)()
        else:
            f = lambda: getattr(self.h[h], op)(n)
        r, err = self.rec.call(f)
        v, ids, single, size = self.h[h], [], False, -1
        if not err:
            v, out = r
            (ids, single), err = self._dec(out)
            size, err2 = self._size(v, "")
            err = err or err2
        self.rec.ev(op, h=h + 1, n=n, out=ids, single=single, size=size, err=err)
        return self._add(v, (cap, used, sz - n))

    def peek(self, h, n, default_arg=False):
        self.rec.pending("peek %d" % n)
        out, err = self.rec.call((lambda: self.h[h].peek()) if default_arg else (lambda: self.h[h].peek(n)))
        ids, single, size = [], False, -1
        if not err:
            (ids, single), err = self._dec(out)
            size, err2 = self._size(self.h[h], "")
            err = err or err2
        self.rec.ev("peek", h=h + 1, n=n, out=ids, single=single, size=size, err=err)

    def get(self, h, idx, form="array"):
        import jax.numpy as jnp

        self.rec.pending("get %s" % idx)
        key = {"array": lambda: jnp.asarray(idx, dtype=jnp.uint32), "int": lambda: int(idx[0]),
               "u32": lambda: jnp.uint32(idx[0]), "i32": lambda: jnp.asarray(idx, dtype=jnp.int32)}[form]()
        out, err = self.rec.call(lambda: self.h[h][key])
        ids = []
        if not err:
            (ids, _), err = self._dec(out)
        self.rec.ev("get", h=h + 1, idx=idx, out=ids, err=err)

    def size(self, h):
        size, err = self._size(self.h[h], "")
        self.rec.ev("size", h=h + 1, size=size, err=err)

    def clear(self, h):
        cap, used, n = self.m[h]
        v, err = self.rec.call(lambda: self.h[h].clear())
        if err:
            v = self.h[h]
        size, err2 = self._size(v, err)
        self.rec.ev("clear", h=h + 1, size=size, err=err or err2)
        return self._add(v, (cap, 0, 0))


def replay(rec, container, kind, transitions, part=0, parts=1, seed=0):
    """One real call per transition of the TLC state graph (state = contents; queue: plus used space)."""
    k = zoo.kind(kind, 8, seed)
    d = SeqDriver(rec, container, k)
    with open(transitions) as fh:
        trs = json.load(fh)
    caps = sorted({t["cap"] for t in trs})
    rnd = random.Random(seed)
    for cap in caps:
        d.reset(cap=cap, what="state graph replay")
        nodes = {}
        h0 = d.new(cap)
        nodes[json.dumps([[], 0])] = h0
        n = 0
        for t in trs:
            if t["cap"] != cap:
                continue
            src = nodes[json.dumps([t["src"], t.get("used", 0)])]
            if t["op"] in ("push", "enqueue"):
                h = d.put(src, t["items"])
                if len(t["items"]) == 1:
                    d.put(src, t["items"], single=True)
            elif t["op"] in ("pop", "dequeue"):
                d.peek(src, t["n"])
                h = d.take(src, t["n"])
            else:
                h = d.clear(src)
            nodes.setdefault(json.dumps([t["dst"], t.get("used2", 0)]), h)
            n += 1
            if n % 9 == 0:  # re-inspect an old value: nothing later may have changed it
                o = rnd.randrange(len(d.h))
                sz = d.m[o][2]
                if sz:
                    d.get(o, list(range(sz)))
                else:
                    d.size(o)


def random_histories(rec, container, kinds, caps, maxb, histories, steps, seed, n_ids=24):
    rnd = random.Random("%s-%s" % (container, seed))
    for hist in range(histories):
        if rec.out_of_time():
            break
        k = zoo.kind(kinds[hist % len(kinds)], n_ids, seed + hist % len(kinds))
        d = SeqDriver(rec, container, k)
        cap = caps[hist % len(caps)]
        bmax = min(maxb, cap)
        d.reset(cap=cap, what="random history")
        d.new(cap)
        cur = 0
        mode = rnd.choice(["mix", "fill", "saw", "branch"])
        grow = True
        for _ in range(steps):
            if mode == "branch" and rnd.random() < 0.3:
                cur = rnd.randrange(len(d.h))
            elif rnd.random() < 0.05:
                cur = rnd.randrange(len(d.h))
            c, used, sz = d.m[cur]
            room = c - (used if container == "queue" else sz)
            acts = []
            if room > 0:
                acts += ["put"] * (6 if (mode == "fill" or (mode == "saw" and grow)) else 3)
            else:
                grow = False
            if sz > 0:
                acts += ["take"] * (1 if mode == "fill" else (5 if mode == "saw" and not grow else 3)) + ["peek", "get"]
            else:
                grow = True
            acts += ["size"]
            if container == "queue":
                acts += ["clear"] * (4 if room == 0 else 1)
            a = rnd.choice(acts)
            if a == "put":
                n = min(room, rnd.choice([0, 1, 1, 2, 3, bmax, room if room <= 12 else bmax]))
                ids = [rnd.randrange(k.n) for _ in range(n)]
                cur = d.put(cur, ids, single=(n == 1 and rnd.random() < 0.6))
            elif a == "take":
                n = min(sz, rnd.choice([1, 1, 1, 2, 3, bmax, sz if sz <= 12 else bmax]))
                cur = d.take(cur, n, default_arg=(n == 1 and rnd.random() < 0.5))
            elif a == "peek":
                n = min(sz, rnd.choice([1, 1, 2, 3, bmax]))
                d.peek(cur, n, default_arg=(n == 1 and rnd.random() < 0.5))
            elif a == "get":
                f = rnd.choice(["array", "int", "u32", "i32"])
                m = 1 if f in ("int", "u32") else 3
                d.get(cur, [rnd.randrange(sz) for _ in range(m)], f)
            elif a == "clear":
                cur = d.clear(cur)
            else:
                d.size(cur)
        # final inspection of every value still reachable (bounded)
        for o in rnd.sample(range(len(d.h)), min(10, len(d.h))):
            sz = d.m[o][2]
            if sz:
                d.get(o, [rnd.randrange(sz) for _ in range(3)])
            d.size(o)


def big(rec, container, kind, cap, seed):
    """Large capacities: fill levels above 255 / 65535 reached by wide batches."""
    rnd = np.random.default_rng([seed, cap])
    k = zoo.kind(kind, 40, seed)
    d = SeqDriver(rec, container, k)
    d.reset(cap=cap, what="large capacity")
    cur = d.new(cap)
    step = max(1, cap // 5 - 3)
    while True:
        _, used, sz = d.m[cur]
        room = cap - (used if container == "queue" else sz)
        if room <= 0:
            break
        n = min(room, step)
        cur = d.put(cur, rnd.integers(0, k.n, n).tolist())
        sz = d.m[cur][2]
        d.get(cur, [0, sz - 1, sz // 2, max(0, sz - n), max(0, sz - n - 1)])
        if rnd.random() < 0.5:
            cur = d.take(cur, int(rnd.integers(1, 9)))
    full = cur
    d.peek(cur, 7)
    while d.m[cur][2]:
        cur = d.take(cur, min(d.m[cur][2], step + 1))
    if container == "queue":
        cur = d.clear(cur)
        cur = d.put(cur, [3, 2, 1])
        cur = d.take(cur, 2)
    sz = d.m[full][2]
    d.get(full, [0, sz - 1, sz // 3, 255 % sz, 256 % sz])
