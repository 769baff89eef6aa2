"""Driver of real BGPQ values for C06-C08: records events, judges nothing."""
import json
import random

import numpy as np

from harness import zoo

INF = 1000000
DTYPES = ["float32", "float16", "bfloat16"]


def key_table(rnd, n, dtype, style):
    """n distinct finite keys of the type, ascending (no zeros of either sign beside +0, no subnormals)."""
    import ml_dtypes

    dt = np.dtype(ml_dtypes.bfloat16) if dtype == "bfloat16" else np.dtype(dtype)
    if style == "small":
        c = [i / 4.0 for i in range(-64, 65)]
    elif style == "negative":
        c = [-(i / 8.0) for i in range(1, 129)]
    elif style == "extreme":
        mx = float(ml_dtypes.finfo(dt).max) if dtype == "bfloat16" else float(np.finfo(dt).max)
        c = [mx, -mx, mx / 2, -mx / 2] + [s * 2.0 ** e for e in range(-12, 14) for s in (1, -1)] + [0.0]
    else:  # tight: neighbouring representable numbers
        one = np.ones(1, dt)
        u = one.view(np.uint16 if dt.itemsize == 2 else np.uint32)
        c = [float((u + np.asarray(i + 50, u.dtype)).view(dt)[0]) for i in range(-40, 41)]
    vals = sorted({float(np.asarray(x, np.float64).astype(dt)) for x in c})
    vals = [v for v in vals if np.isfinite(v)]
    if len(vals) > n:
        some = rnd.sample(vals, n)
        if style == "extreme" and n >= 2 and rnd.random() < 0.8:  # the greatest and least keys there are
            some[:2] = [vals[0], vals[-1]]
        vals = sorted(set(some))
    return vals, dt


class PQ:
    def __init__(self, rec, kind, rnd):
        self.rec, self.kind, self.rnd = rec, kind, rnd
        self.h, self.m = [], []  # values; scope bookkeeping (most keys that may be held, cap, n, resolved)

    def reset(self, n_keys, dtype, style, **kw):
        self.h, self.m = [], []
        self.keys, self.dt = key_table(self.rnd, n_keys, dtype, style)
        self.nk = len(self.keys)
        self.index = {v: i for i, v in enumerate(self.keys)}
        self.dtype = dtype
        self.rec.reset(kind=self.kind.cls.__name__, key_dtype=dtype, keys=[str(v) for v in self.keys], **kw)

    def kenc(self, ranks):
        import jax.numpy as jnp

        return jnp.asarray(np.array([np.inf if r == INF else self.keys[r] for r in ranks], np.float64).astype(self.dt))

    def kdec(self, arr):
        a = np.asarray(arr)
        if a.dtype != self.dt or a.ndim != 1:
            return [-5] * int(a.size)
        return [INF if v == np.inf else self.index.get(float(v), -5) for v in a.astype(np.float64)]

    def vdec(self, val):
        ids = self.kind.dec(val)
        return [-3] if ids.ndim != 1 else ids.tolist()

    def _add(self, v, m):
        self.h.append(v)
        self.m.append(m)
        return len(self.h) - 1

    def new(self, total, n):
        import jax.numpy as jnp
        from xtructure import BGPQ

        self.rec.pending("build %d %d" % (total, n))
        dt = {"bfloat16": jnp.bfloat16, "float16": jnp.float16, "float32": jnp.float32}[self.dtype]

        def go():
            q = BGPQ.build(total, n, self.kind.cls, dt)
            return q, int(q.size)

        r, err = self.rec.call(go)
        q, size = r if not err else (None, -1)
        self.rec.ev("new", n=n, cap=total, size=size, err=err)
        return self._add(q, (0, total, n, True))

    def insert_arrays(self, h, keys, items, ka, va):
        self.rec.pending("insert %s" % keys)

        def go():
            q = self.h[h].insert(ka, va)
            return q, int(q.size)

        r, err = self.rec.call(go)
        q, size = r if not err else (self.h[h], -1)
        self.rec.ev("insert", h=h + 1, keys=keys, items=items, size=size, err=err)
        held, cap, n, ok = self.m[h]
        held += sum(k != INF for k in keys)
        return self._add(q, (held, cap, n, ok and held <= cap))

    def insert(self, h, ranks, items, how="pad"):
        """A block of (rank, id) pairs; short ones padded in some way to the batch size."""
        n = self.m[h][2]
        pairs = list(zip(ranks, items))
        self.rnd.shuffle(pairs)
        if how == "make" or how == "like":
            from xtructure import BGPQ

            ks, ids = [p[0] for p in pairs], [p[1] for p in pairs]
            self.rec.pending("make_batched %s" % ks)

            def go():
                if how == "make":
                    k, v = BGPQ.make_batched(self.kenc(ks), self.kind.enc(ids), n)
                else:
                    k, v = self.h[h].make_batched_like(self.kenc(ks), self.kind.enc(ids))
                return k, v, self.kdec(k), self.vdec(v)

            r, err = self.rec.call(go)
            k, v, dk, dv = r if not err else (None, None, [], [])
            self.rec.ev("make_batched", n=n, inkeys=ks, initems=ids, keys=dk, items=dv, err=err)
            if not err and len(dk) == n and len(dv) == n and -5 not in dk and -1 not in dv:
                return self.insert_arrays(h, dk, dv, k, v)
        pairs += [(INF, self.rnd.randrange(self.kind.n)) for _ in range(n - len(pairs))]
        if how != "tail":
            self.rnd.shuffle(pairs)
        ks, ids = [p[0] for p in pairs], [p[1] for p in pairs]
        return self.insert_arrays(h, ks, ids, self.kenc(ks), self.kind.enc(ids))

    def delete(self, h):
        self.rec.pending("delete_mins")

        def go():
            q, k, v = self.h[h].delete_mins()
            return q, self.kdec(k), self.vdec(v), int(q.size)

        r, err = self.rec.call(go)
        q, dk, dv, size = r if not err else (self.h[h], [], [], -1)
        self.rec.ev("delete_mins", h=h + 1, keys=dk, items=dv, size=size, err=err)
        held, cap, n, ok = self.m[h]
        return self._add(q, (max(0, held - sum(k != INF for k in dk)), cap, n, ok))

    def drain(self, h):
        """Every batch of a queue, without using it up (values are persistent)."""
        self.rec.pending("drain")
        held, cap, n, _ = self.m[h]

        def go():
            q, ks, vs, counts = self.h[h], [], [], []
            short = 0
            for _ in range((held + cap) // n + 6):
                q, k, v = q.delete_mins()
                dk, dv = self.kdec(k), self.vdec(v)
                ks += dk
                vs += dv
                counts.append(sum(x != INF for x in dk))
                short += counts[-1] < n
                if short >= 2:
                    break
            while counts and counts[-1] == 0:
                counts.pop()
            return ks, vs, counts

        r, err = self.rec.call(go)
        ks, vs, counts = r if not err else ([], [], [])
        self.rec.ev("drain", h=h + 1, keys=ks, items=vs, counts=counts, err=err)
        self.m[h] = (len([k for k in ks if k != INF]) if not err else held, cap, n, True)

    def size(self, h):
        s, err = self.rec.call(lambda: int(self.h[h].size))
        self.rec.ev("size", h=h + 1, size=-1 if err else s, err=err)


HOWS = ["pad", "tail", "make", "like"]


def replay(rec, transitions, kind, dtype, style, batch, branch, total, seed, limit, ties=1):
    """The state graph of BGPQImpl: each state is one real queue value; every transition (a sample of
    them above `limit`, always including those that reach new states) is one real call."""
    with open(transitions) as fh:
        trs = json.load(fh)
    rnd = random.Random("pq-%s" % seed)
    k = zoo.kind(kind, 24, seed)
    d = PQ(rec, k, rnd)
    seen, tree = set(), []
    for i, t in enumerate(trs):
        s = json.dumps(t["dst"])
        if s not in seen:
            seen.add(s)
            tree.append(i)
    nodes = {}
    chosen = set(tree)
    rest = [i for i in range(len(trs)) if i not in chosen]
    if len(trs) > limit:
        # a random subtree when even the tree is too large
        if len(tree) > limit * 0.6:
            keep = set()
            parent = {json.dumps(trs[i]["dst"]): i for i in tree}
            order = tree[:]
            rnd.shuffle(order)
            for i in order:
                path = []
                while i not in keep:
                    path.append(i)
                    s = json.dumps(trs[i]["src"])
                    if s not in parent or parent[s] in path:
                        break
                    i = parent[s]
                keep.update(path)
                if len(keep) > limit * 0.6:
                    break
            chosen = keep
        ok = {json.dumps(trs[i]["dst"]) for i in chosen}
        rest = [i for i in rest if json.dumps(trs[i]["src"]) in ok]
        rnd.shuffle(rest)
        chosen |= set(rest[: max(0, limit - len(chosen))])
    else:
        chosen |= set(rest)
    nkeys = 1 + max([x for t in trs for x in t["block"]] or [0])
    d.reset(nkeys, dtype, style, model="BGPQImpl", batch=batch, branch=branch, total=total)
    if trs:
        nodes[json.dumps(trs[0]["src"])] = d.new(total, batch)
    done = 0
    for i in sorted(chosen):
        t = trs[i]
        if rec.out_of_time():
            return
        src = nodes.get(json.dumps(t["src"]))
        if src is None:
            continue
        if t["op"] == "insert":
            ks = [x % d.nk for x in t["block"]]
            n = d.insert(src, ks, [rnd.randrange(k.n) for _ in ks], rnd.choice(HOWS))
        else:
            if not d.m[src][3]:
                d.drain(src)
            n = d.delete(src)
        nodes.setdefault(json.dumps(t["dst"]), n)
        done += 1
        if not d.m[n][3] or done % 6 == 0:
            d.drain(n)
        if done % 25 == 0:
            d.drain(rnd.randrange(len(d.h)))


def random_histories(rec, kinds, configs, histories, steps, seed, over=False, styles=("small", "negative", "extreme", "tight"), dtypes=DTYPES):
    """configs: (total, batch)."""
    for hist in range(histories):
        if rec.out_of_time():
            return
        rnd = random.Random("pqr-%s-%s" % (seed, hist))
        total, n = configs[hist % len(configs)]
        k = zoo.kind(kinds[hist % len(kinds)], 40, seed)
        d = PQ(rec, k, rnd)
        d.reset(rnd.choice([2, 5, 12, 60, 60]), dtypes[(hist + seed) % len(dtypes)], rnd.choice(styles), total=total, batch=n)
        cur = d.new(total, n)
        mode = rnd.choice(["mix", "fill", "saw", "asc", "desc", "branch"])
        grow, pos = True, 0
        for step in range(steps):
            if rnd.random() < (0.2 if mode == "branch" else 0.03):
                cur = rnd.randrange(len(d.h))
            held, cap, _, ok = d.m[cur]
            room = cap - held if not over else n
            if not over and room <= 0:
                grow = False
            if over and held >= cap + n and rnd.random() < 0.3:
                grow = False
            if held <= 0:
                grow = True
            ins = {"mix": 0.55, "fill": 0.85, "branch": 0.6}.get(mode, 0.9 if grow else 0.12)
            r = rnd.random()
            if r < ins and room > 0:
                m = min(room, rnd.choice([n, n, n, 1, 0, rnd.randint(0, n), max(0, n - 1)]))
                if mode in ("asc", "desc"):
                    ks = []
                    for _ in range(m):
                        pos += rnd.choice([0, 1])
                        ks.append(min(d.nk - 1, pos % (d.nk + 3)) if mode == "asc" else max(0, d.nk - 1 - pos % (d.nk + 3)))
                elif rnd.random() < 0.2:
                    ks = [rnd.randrange(d.nk)] * m
                else:
                    ks = [rnd.randrange(d.nk) for _ in range(m)]
                cur = d.insert(cur, ks, [rnd.randrange(k.n) for _ in range(m)], rnd.choice(HOWS) if n > 1 or m else "pad")
                if over and not d.m[cur][3] and (rnd.random() < 0.35 or d.m[cur][0] > 3 * cap + 30):
                    d.drain(cur)
            elif r < 0.96:
                if not d.m[cur][3]:
                    d.drain(cur)
                cur = d.delete(cur)
            elif r < 0.98:
                d.size(cur)
            else:
                d.drain(rnd.randrange(len(d.h)))
        d.drain(cur)
        d.drain(rnd.randrange(len(d.h)))


def impl_cfg(batch, branch, keys, maxheld, emit=True):
    return """CONSTANTS Batch = %d
 Branch = %d
 Keys = {%s}
 MaxHeld = %d
 EMIT = %s
SPECIFICATION Spec
INVARIANT Inv
INVARIANT InsertConserves
PROPERTY DeleteExact
CHECK_DEADLOCK FALSE
""" % (batch, branch, ", ".join(map(str, range(keys))), maxheld, "TRUE" if emit else "FALSE")


def impl_models(specs):
    """specs: (batch, branch, keys, maxheld, emit)"""
    for b, br, k, m, emit in specs:
        yield dict(name="BGPQImpl_%d_%d_%d_%d" % (b, br, k, m), module="BGPQImpl", cfg_text=impl_cfg(b, br, k, m, emit),
                   emit="TR " if emit else None, heap="4g")
