"""C09: the same operations, called directly and under program transformations."""
import copy
import hashlib
import json
import pickle
import random

import numpy as np

from harness import zoo

K = 3  # batch of operation arguments
PAIRS = 3  # pairs of containers per world


def digest(tree, jax):
    h = hashlib.sha1()
    for a in jax.tree_util.tree_leaves(tree):
        a = np.asarray(a)
        h.update(str((a.dtype, a.shape)).encode())
        h.update(np.ascontiguousarray(a).tobytes())
    return h.hexdigest()[:16]


class World:
    """A kind of container: how to make one, its operations, what it holds."""

    def __init__(self, kind, rnd, jax):
        self.kind, self.rnd, self.jax, self.jnp = kind, rnd, jax, jax.numpy
        self.zero = kind.enc([0] * K)

    def out(self, rec=None, nums=()):
        jnp = self.jnp
        nums = [jnp.asarray(v).astype(jnp.float32).reshape(-1) for v in nums]
        flat = jnp.concatenate(nums) if nums else jnp.zeros((0,), jnp.float32)
        return dict(r=self.zero if rec is None else rec, n=jnp.pad(flat, (0, 16 - flat.shape[0])))

    def ids(self, n):
        return [self.rnd.randrange(self.kind.n) for _ in range(n)]

    def masked(self, rec, mask):
        jnp = self.jnp
        return self.jax.tree_util.tree_map(
            lambda x, z: jnp.where(mask.reshape(mask.shape + (1,) * (x.ndim - 1)), x, z), rec, self.zero)

    def one(self, rec):
        return self.jax.tree_util.tree_map(lambda x: self.jnp.broadcast_to(x, (K,) + x.shape), rec)


class StackWorld(World):
    name = "stack"
    ops = ["push", "push1", "pop", "pop1", "peek", "get", "size"]
    cap = 48

    def make(self):
        from xtructure import Stack

        return Stack.build(self.cap, self.kind.cls).push(self.kind.enc(self.ids(21)))

    def args(self, op):
        return dict(v=self.kind.enc(self.ids(K)), i=np.int32(self.rnd.randrange(5)))

    def do(self, op, c, a):
        if op == "push":
            return c.push(a["v"]), self.out()
        if op == "push1":
            return c.push(a["v"][1]), self.out()
        if op == "pop":
            c, v = c.pop(K)
            return c, self.out(v)
        if op == "pop1":
            c, v = c.pop()
            return c, self.out(self.one(v))
        if op == "peek":
            return c, self.out(c.peek(K))
        if op == "get":
            return c, self.out(self.one(c[a["i"]]))
        return c, self.out(nums=[c.size])

    def left(self, c):
        n = int(c.size)
        return [n, c.max_size] + [c[self.jnp.asarray(i, self.jnp.uint32)] for i in range(min(n, self.cap))]


class QueueWorld(World):
    name = "queue"
    ops = ["enqueue", "enqueue1", "dequeue", "peek", "clear", "get", "size"]
    cap = 64

    def make(self):
        from xtructure import Queue

        q = Queue.build(self.cap, self.kind.cls).enqueue(self.kind.enc(self.ids(21)))
        return q.dequeue(2)[0]

    def args(self, op):
        return dict(v=self.kind.enc(self.ids(K)), i=np.int32(0))

    def do(self, op, c, a):
        jnp = self.jnp
        some = c.size >= K  # answers are only fixed where there is something to answer
        if op == "enqueue":
            return c.enqueue(a["v"]), self.out()
        if op == "enqueue1":
            return c.enqueue(a["v"][0]), self.out()
        if op == "dequeue":
            rest, v = c.dequeue(K)
            c = self.jax.tree_util.tree_map(lambda x, y: jnp.where(some, x, y), rest, c)
            return c, self.out(self.masked(v, jnp.broadcast_to(some, (K,))))
        if op == "peek":
            return c, self.out(self.masked(c.peek(K), jnp.broadcast_to(some, (K,))))
        if op == "clear":
            return c.clear(), self.out()
        if op == "get":
            v = c[a["i"]]
            return c, self.out(self.masked(self.one(v), jnp.broadcast_to(some, (K,))))
        return c, self.out(nums=[c.size])

    def left(self, c):
        n = int(c.size)
        out = [n, c.max_size]
        for _ in range(min(n, self.cap)):
            c, v = c.dequeue(1)
            out.append(v)
        return out


class TableWorld(World):
    name = "table"
    ops = ["insert_many", "insert_many", "insert", "lookup", "lookup_many", "items", "size"]

    def make(self):
        from xtructure import HashTable

        t = HashTable.build(self.kind.cls, self.seed, 40)
        return t.parallel_insert(self.kind.enc(self.ids(K)), self.jnp.asarray([True] * K))[0]

    def __init__(self, kind, rnd, jax):
        super().__init__(kind, rnd, jax)
        self.seed = rnd.randrange(1000)
        self.pool = kind.enc(list(range(kind.n)))
        self.look = jax.jit(lambda t, p: t.lookup_parallel(p))
        self.items = jax.jit(lambda t, i: t[i])

    def args(self, op):
        return dict(v=self.kind.enc(self.ids(K)), m=np.array([self.rnd.random() < 0.8 for _ in range(K)]), i=np.int32(0))

    def do(self, op, t, a):
        jnp = self.jnp
        v, m = a["v"], a["m"]
        if op == "insert_many":
            t, upd, uniq, idx = t.parallel_insert(v, m)
            return t, self.out(nums=[upd & m, jnp.where(m, idx.index, 0)])
        if op == "insert":
            t, new, idx = t.insert(v[0])
            return t, self.out(nums=[new, idx.index])
        if op == "lookup":
            idx, found = t.lookup(v[1])
            return t, self.out(self.masked(self.one(t[idx]), jnp.broadcast_to(found, (K,))), [found, jnp.where(found, idx.index, 0)])
        if op == "lookup_many":
            idx, found = t.lookup_parallel(v, m)
            found = found & m
            return t, self.out(nums=[found, jnp.where(found, idx.index, 0)])
        if op == "items":
            idx, found = t.lookup_parallel(v)
            return t, self.out(self.masked(t[idx], found), [found])
        return t, self.out(nums=[t.size])

    def left(self, t):
        idx, found = self.look(t, self.pool)
        found = np.asarray(found)
        at = np.where(found, np.asarray(idx.index), 0)
        got = self.kind.dec(self.items(t, idx))
        return [int(t.size), t.capacity, found, at, np.where(found, got, -1)]


class HeapWorld(World):
    name = "heap"
    ops = ["insert", "insert_some", "delete", "delete", "size"]

    def __init__(self, kind, rnd, jax):
        super().__init__(kind, rnd, jax)
        self.dt = rnd.choice(["float32", "float16", "int32"])

    def pairs(self):
        """Keys and records; equal keys carry equal records, so that it does not matter which one leaves first."""
        ks = [self.rnd.choice([self.rnd.randrange(1, 200), self.rnd.randrange(1, 6)]) for _ in range(K)]
        return self.jnp.asarray(np.array(ks), dtype=self.dt), self.kind.enc([k % self.kind.n for k in ks])

    def make(self):
        from xtructure import BGPQ

        q = BGPQ.build(40, K, self.kind.cls, self.dt)
        for _ in range(2):
            q = q.insert(*q.make_batched(*self.pairs(), K))
        return q

    def args(self, op):
        k, v = self.pairs()
        return dict(v=v, k=k, i=np.int32(0))

    def do(self, op, q, a):
        jnp = self.jnp
        if op == "insert":
            return q.insert(a["k"], a["v"]), self.out()
        if op == "insert_some":
            k, v = q.make_batched_like(a["k"][:2], a["v"][:2])
            return q.insert(k, v), self.out()
        if op == "delete":
            before = q.size
            q, k, v = q.delete_mins()
            here = jnp.arange(K) < before
            return q, self.out(self.masked(v, here), nums=[jnp.where(here, k, 0), before])
        return q, self.out(nums=[q.size])

    def left(self, q):
        out = [int(q.size), q.max_size]
        pairs = []
        while int(q.size) > 0 and len(pairs) < 400:
            n = min(K, int(q.size))
            q, k, v = q.delete_mins()
            pairs += list(zip(np.asarray(k, np.float64)[:n].tolist(), self.kind.dec(v)[:n].tolist()))
        return out + [np.array(sorted(pairs))]


class RecordWorld(World):
    """Records themselves: operations that keep the batch shape."""
    name = "records"
    ops = ["roll", "flip", "take", "set", "set_where", "where", "stack", "concat", "reshape", "repeat", "hash", "equal", "unique",
           "update", "update_tuple", "packed", "pad", "sort", "bytes"]

    def make(self):
        return self.kind.enc(self.ids(K))

    def args(self, op):
        r = self.rnd
        return dict(v=self.kind.enc(self.ids(K)), m=np.array([r.random() < 0.5 for _ in range(K)]), i=np.int32(r.randrange(K)),
                    ix=np.array([r.randrange(K) for _ in range(K)], np.int32), perm=np.array(r.sample(range(K), K), np.int32))

    def do(self, op, c, a):
        from xtructure import xtructure_numpy as xnp

        jnp = self.jnp
        v, m, i = a["v"], a["m"], a["i"]
        if op == "roll":
            return xnp.roll(c, 1, axis=0), self.out()
        if op == "flip":
            return xnp.flip(c, axis=0), self.out()
        if op == "take":
            return xnp.take(c, a["perm"], axis=0), self.out()
        if op == "set":
            return c.at[i].set(v[0]), self.out(self.one(c[i]))
        if op == "set_where":
            return c.at[m].set_as_condition(m[a["ix"]], v) if False else c.at[a["perm"]].set_as_condition(m, v), self.out()
        if op == "where":
            one = m[0]
            return xnp.where(one, c, v), self.out()
        if op == "stack":
            return xnp.stack([v, c])[1], self.out()
        if op == "concat":
            return xnp.concatenate([v, c])[K:], self.out(xnp.concatenate([c, v])[K - 1:2 * K - 1])
        if op == "reshape":
            return xnp.squeeze(xnp.expand_dims(c, 1), 1).reshape((K, 1)).flatten(), self.out()
        if op == "repeat":
            return xnp.repeat(c, 2, axis=0)[1:1 + K], self.out(xnp.repeat(v, 2, axis=0)[:K])
        if op == "hash":
            h = self.jax.vmap(lambda x: x.hash(7))(c)
            return c, self.out(nums=[h & 0xFFFF, h >> 16])
        if op == "equal":
            return c, self.out(nums=[jnp.stack([jnp.asarray(c[j] == v[j]) for j in range(K)])])
        if op == "unique":
            return c, self.out(nums=[xnp.unique_mask(xnp.concatenate([c, v]))])
        if op == "update":
            return xnp.update_on_condition(c, a["ix"], m, v), self.out()
        if op == "update_tuple":
            return xnp.update_on_condition(c, (a["ix"],), m, v[0]), self.out()
        if op == "packed":
            if hasattr(type(c), "packed"):
                return c.packed.as_original(), self.out()
            return c, self.out()
        if op == "pad":
            return xnp.pad(c, (1, 1), mode="edge")[1:1 + K], self.out()
        if op == "sort":
            return c, self.out(nums=[self.jax.vmap(lambda x: jnp.asarray(x.bytes).astype(jnp.float32).sum())(c)])
        b = self.jax.vmap(lambda x: x.uint32ed)(c).astype(jnp.uint32)
        return c, self.out(nums=[(b & 0xFFFF).astype(jnp.float32).sum(axis=-1)])

    def left(self, c):
        return [c]


WORLDS = dict(stack=StackWorld, queue=QueueWorld, table=TableWorld, heap=HeapWorld, records=RecordWorld)


def stack2(jax, x, y):
    return jax.tree_util.tree_map(lambda p, q: jax.numpy.stack([p, q]), x, y)


def lane(jax, x, i):
    return jax.tree_util.tree_map(lambda p: p[i], x)


def trip(jax, c, how):
    tu, jnp = jax.tree_util, jax.numpy
    if how == "flatten":
        leaves, d = tu.tree_flatten(c)
        return tu.tree_unflatten(d, leaves)
    if how == "path":
        return tu.tree_map_with_path(lambda p, x: x, c)
    if how == "map":
        return tu.tree_map(lambda x: jnp.reshape(jnp.ravel(x), x.shape), c)
    if how == "stack":
        return lane(jax, stack2(jax, c, c), 1)
    if how == "identity":
        return jax.jit(lambda x: x)(c)
    if how == "vmapid":
        return lane(jax, jax.vmap(lambda x: x)(stack2(jax, c, c)), 0)
    if how == "cond":
        return jax.lax.cond(jnp.asarray(True), lambda x: x, lambda x: tu.tree_map(jnp.zeros_like, x), c)
    if how == "host":
        return jax.device_put(jax.device_get(c))
    if how == "numpy":
        leaves, d = tu.tree_flatten(c)
        return tu.tree_unflatten(d, [jnp.asarray(np.array(x)) for x in leaves])
    if how == "pickle":
        return pickle.loads(pickle.dumps(jax.device_get(c)))
    if how == "copy":
        return copy.deepcopy(c)
    if how == "replace":
        return c.replace()
    if how == "tuple":
        return type(c).from_tuple(c.to_tuple())
    raise AssertionError(how)


TRACED = ["flatten", "path", "map", "stack", "identity", "vmapid", "cond", "replace", "tuple"]
CONCRETE = TRACED + ["host", "numpy", "copy"]


class Runner:
    def __init__(self, world, names, jax, rnd):
        self.w, self.names, self.jax, self.rnd = world, names, jax, rnd

    def run(self, p, c, a, b):
        """(container, answers) of program p; a: arguments by operation, b: those of the other container."""
        jax, jnp = self.jax, self.jax.numpy
        t, ks = p["t"], p["ks"]
        if t == "op":
            c, out = self.w.do(self.names[p["o"]], c, a["op%d" % p["o"]])
            return c, [out]
        if t == "seq":
            outs = []
            for k in ks:
                c, o = self.run(k, c, a, b)
                outs += o
            return c, outs
        if t == "jit":
            return jax.jit(lambda c, a, b: self.run(ks[0], c, a, b))(c, a, b)
        if t == "trip":
            return trip(jax, c, p["how"]), []
        if t == "vmap":
            c2, o2 = jax.vmap(lambda c, a, b: self.run(ks[0], c, a, b))(stack2(jax, c, self.other), stack2(jax, a, b), stack2(jax, b, a))
            return lane(jax, c2, 0), lane(jax, o2, 0)
        if t == "cond":
            first = jnp.asarray(a["yes"]) == p["c"]
            return jax.lax.cond(first, lambda c, a, b: self.run(ks[0], c, a, b), lambda c, a, b: self.run(ks[1], c, a, b), c, a, b)
        if t == "scan":
            c, outs = jax.lax.scan(lambda c, _: self.run(ks[0], c, a, b), c, None, length=p["n"])
            return c, [lane(jax, o, i) for i in range(p["n"]) for o in outs]
        if t == "while":
            n = p["n"]
            shapes = jax.eval_shape(lambda c, a, b: self.run(ks[0], c, a, b), c, a, b)[1]
            buf = jax.tree_util.tree_map(lambda s: jnp.zeros((n,) + s.shape, s.dtype), shapes)

            def body(st):
                i, c, buf = st
                c, o = self.run(ks[0], c, a, b)
                return i + 1, c, jax.tree_util.tree_map(lambda x, y: x.at[i].set(y), buf, o)

            if p["fori"]:
                i, c, buf = jax.lax.fori_loop(0, n, lambda i, st: body(st), (jnp.int32(0), c, buf))
            else:
                i, c, buf = jax.lax.while_loop(lambda st: st[0] < n, body, (jnp.int32(0), c, buf))
            return c, [lane(jax, o, i) for i in range(n) for o in buf]
        raise AssertionError(t)


def ops_of(p):
    t, ks = p["t"], p["ks"]
    if t == "op":
        return [p["o"]]
    if t == "cond":
        return ops_of(ks[0] if p["c"] else ks[1])
    if t in ("scan", "while"):
        return ops_of(ks[0]) * p["n"]
    return [o for k in ks for o in ops_of(k)]


def decorate(p, rnd, inside=False):
    """Choices the specification leaves open: how to take apart and rebuild, which loop."""
    inside = inside or p["t"] in ("jit", "vmap", "scan", "while", "cond")
    if p["t"] == "trip":
        p["how"] = "?"
    p["fori"] = rnd.random() < 0.5
    p["inside"] = inside
    for k in p["ks"]:
        decorate(k, rnd, inside)


def choose_trips(p, rnd, traced, containers):
    if p["t"] == "trip":
        p["how"] = rnd.choice(TRACED if traced or p["inside"] else CONCRETE)
    for k in p["ks"]:
        choose_trips(k, rnd, traced, containers)


def clean(p):
    return {k: ([clean(q) for q in p["ks"]] if k == "ks" else p[k]) for k in ("t", "o", "n", "c", "ks")}


def interesting(p):
    kinds = set()

    def walk(q):
        kinds.add(q["t"])
        for k in q["ks"]:
            walk(k)
    walk(p)
    return len(kinds & {"jit", "vmap", "scan", "while", "cond", "trip"})


def compositions(rec, path, world, kinds, seed, programs_per_world=8):
    import jax
    import jax.numpy as jnp

    rnd = random.Random(seed)
    with open(path) as fh:
        progs = json.load(fh)
    by = {}
    for p in progs:
        by.setdefault((interesting(p), len(ops_of(p))), []).append(p)
    groups = sorted(by)
    while not rec.out_of_time():
        w = WORLDS[world](zoo.kind(rnd.choice(kinds), 24, seed=rnd.randrange(10**6)), rnd, jax)
        names = dict(enumerate(rnd.sample(w.ops, 3), 1))
        args = [{"op%d" % o: w.args(n) for o, n in names.items()} for _ in range(2 * PAIRS)]
        for a in args:
            a["yes"] = np.bool_(True)
        args = jax.tree_util.tree_map(jnp.asarray, args)
        rec.reset(text="%s of %s, operations %s" % (world, w.kind.cls.__name__, list(names.values())))
        rec.pending("building %s" % world)
        base, err = rec.call(lambda: [w.make() for _ in args])
        if err:
            rec.ev("direct", lane=0, ops=[], outs=[], left="", err=err)
            continue
        frozen = [np.array(x) for x in jax.tree_util.tree_leaves((base, args))]
        before = digest(frozen, jax)

        def intact():
            try:
                return digest(jax.tree_util.tree_leaves((base, args)), jax)
            except RuntimeError as exc:
                return "unreadable: %s" % exc

        for x in range(2):
            for how in rnd.sample(CONCRETE + ["pickle"], 2):
                rec.pending("%s of %s" % (how, world))
                r, err = rec.call(lambda: w.left(trip(jax, base[x], how)))
                rec.ev("trip", how=how, before=digest(w.left(base[x]), jax), after="" if err else digest(r, jax), err=err)
        done = set()

        def direct(x, ops):
            if (x, tuple(ops)) in done:
                return
            done.add((x, tuple(ops)))
            c, outs, err = base[x], [], ""
            rec.pending("direct %s" % [names[o] for o in ops])
            for o in ops:
                r, err = rec.call(lambda: w.do(names[o], c, args[x]["op%d" % o]))
                if err:
                    break
                c = r[0]
                outs.append(digest(r[1], jax))
            left, err = rec.call(lambda: digest(w.left(c), jax)) if not err else ("", err)
            rec.ev("direct", lane=x, ops=ops, outs=outs, left=left or "", err=err, names=[names[o] for o in ops])

        def ran(x, p, root, r, err, ops):
            left, err = ("", err) if err else rec.call(lambda: digest(w.left(r[0]), jax))
            rec.ev("run", lane=x, p=Node(p), root=root, outs=[] if err else [digest(o, jax) for o in r[1]], left=left or "", err=err,
                   names=[names[o] for o in ops])

        for _ in range(programs_per_world):
            if rec.out_of_time():
                break
            p = json.loads(json.dumps(rnd.choice(by[rnd.choice(groups)])))
            decorate(p, rnd)
            ops = ops_of(p)
            root = rnd.choice(["plain", "jit", "vmap", "jitvmap", "jitvmap"])
            choose_trips(p, rnd, root != "plain", True)
            run = Runner(w, names, jax, rnd)
            run.other = base[-1]
            f = lambda c, a, b: run.run(p, c, a, b)  # noqa: E731
            g = {"plain": f, "jit": jax.jit(f), "vmap": jax.vmap(f), "jitvmap": jax.jit(jax.vmap(f))}[root]
            for r in range(PAIRS if root in ("jit", "jitvmap") else 1):
                x, y = 2 * r, 2 * r + 1
                if rnd.random() < 0.5:
                    x, y = y, x
                for z in [x, y] if "vmap" in root else [x]:
                    direct(z, ops)
                rec.pending("%s %s on %s" % (root, json.dumps(clean(p)), names))
                if "vmap" in root:
                    res, err = rec.call(lambda: g(stack2(jax, base[x], base[y]), stack2(jax, args[x], args[y]), stack2(jax, args[y], args[x])))
                    for i, z in enumerate([x, y]):
                        ran(z, p, root, None if err else lane(jax, res, i), err, ops)
                else:
                    res, err = rec.call(lambda: g(base[x], args[x], args[y]))
                    ran(x, p, root, res, err, ops)
            rec.ev("kept", before=before, after=intact())


class Node:
    def __init__(self, p):
        self.p = clean(p)

    def tolist(self):
        return self.p
