"""Tables, queues and filters of more than 65536 positions (C03-C07, C12): records events, judges nothing."""
import numpy as np

from harness import zoo

INF = 100000000


def lemma(ctx):
    """The witness check of Large agrees with the definitions of HashTable and Unique on all small batches."""
    return dict(name="MCLarge", module="MCLarge", emit=None, cfg_text="""CONSTANTS N = %d
 R = 2
 PR = 2
SPECIFICATION Spec
INVARIANT Lemma
CHECK_DEADLOCK FALSE
""" % ctx.pick(3, 4))


def witness(n, xs, valid, prio):
    """1-based position of the best valid copy of each of n records, 0 where there is none."""
    xs, valid = np.asarray(xs), np.asarray(valid, bool)
    pos = np.arange(len(xs))
    pr = np.zeros(len(xs), np.int64) if prio is None else np.asarray(prio)
    keep = pos[valid]
    order = keep[np.lexsort((keep, pr[keep]))][::-1]
    wit = np.zeros(n, np.int64)
    wit[xs[order]] = order + 1  # the best is written last
    return wit.tolist()


def table(rec, kind, n, cap, bucket, batch, seed, prios=False, mult=None):
    """n records stored by batches with duplicates inside and across them, everything looked up and read."""
    import jax.numpy as jnp
    from xtructure import HashTable

    rnd = np.random.default_rng(seed)
    k = zoo.kind(kind, n, seed, False)
    rec.reset(kind=kind)
    rec.pending("build table %d" % cap)
    kw = {} if mult is None else dict(hash_size_multiplier=mult)

    def new():
        t = HashTable.build(k.cls, seed, cap, bucket_size=bucket, **kw)
        return t, int(t.size)

    r, err = rec.call(new)
    t, size = r if not err else (None, -1)
    rec.ev("tnew", cap=cap, n=n, size=size, err=err, bucket=bucket)
    if err:
        return
    order = rnd.permutation(n)
    half = batch // 2
    believed = np.full(n, -1, np.int64)
    for i in range(0, n, half):
        if rec.out_of_time():
            break
        xs = np.concatenate([order[i:i + half], rnd.integers(0, n, batch)])[:batch]
        xs = xs[rnd.permutation(batch)]
        valid = rnd.random(batch) < 0.9
        prio = rnd.integers(0, 3, batch) if prios else None
        rec.pending("parallel_insert of %d" % batch)

        def go():
            a = [k.enc(xs), jnp.asarray(valid)]
            kw = {} if prio is None else dict(unique_key=jnp.asarray(prio.astype(np.float32)))
            t2, ins, uniq, at = t.parallel_insert(*a, **kw)
            return t2, np.asarray(ins), np.asarray(uniq), np.asarray(at.index), int(t2.size)

        r, err = rec.call(go)
        z = np.zeros(0, int)
        t2, ins, uniq, addr, size = r if not err else (t, z, z, z, -1)
        rec.ev("tinsert", xs=xs.tolist(), valid=valid.tolist(), prio=[] if prio is None else prio.tolist(), wit=witness(n, xs, valid, prio),
               ins=ins.tolist(), uniq=uniq.tolist(), addr=addr.tolist(), size=size, err=err)
        if err:
            return
        t = t2
        new = ins.astype(bool) & (believed[xs] < 0)
        believed[xs[new]] = addr[new]
    for part in np.array_split(rnd.permutation(n), max(1, n // batch)):
        rec.pending("lookup_parallel of %d" % len(part))

        def look():
            at, f = t.lookup_parallel(k.enc(part))
            return np.asarray(f).tolist(), np.asarray(at.index).tolist()

        r, err = rec.call(look)
        f, a = r if not err else ([], [])
        rec.ev("tlookup", xs=part.tolist(), found=f, addr=a, err=err)
    known = np.nonzero(believed >= 0)[0]
    rec.pending("read of %d" % len(known))

    def get():
        from xtructure.hashtable.types import HashIdx

        return k.dec(t[HashIdx(index=jnp.asarray(believed[known].astype(np.uint32)))]).tolist()

    r, err = rec.call(get)
    rec.ev("tget", xs=known.tolist(), addr=believed[known].tolist(), out=r if not err else [], err=err)


def queue(rec, kind, blocks, width, seed, distinct=True):
    """A queue of `blocks` blocks of `width`, filled and emptied inside compiled loops, refilled half way."""
    import jax
    import jax.numpy as jnp
    from xtructure import BGPQ

    rnd = np.random.default_rng(seed)
    n = blocks * width
    k = zoo.kind(kind, n, seed, False)
    rec.reset(kind=kind)
    rec.pending("build queue %d of %d" % (n, width))

    def new():
        q = BGPQ.build(n, width, k.cls, jnp.float32)
        return q, int(q.size)

    r, err = rec.call(new)
    q, size = r if not err else (None, -1)
    rec.ev("qnew", n=n, size=size, err=err, width=width)
    if err:
        return
    keys = rnd.permutation(n) if distinct else rnd.integers(0, n // 3, n)
    fill = jax.jit(lambda q, ks, vs: jax.lax.scan(lambda q, kv: (q.insert(kv[0], kv[1]), None), q, (ks, vs))[0])
    take = {}

    def insert(lo, hi):
        nonlocal q
        rec.pending("insert of %d" % (hi - lo))

        def go():
            m = (hi - lo) // width
            ks = jnp.asarray(keys[lo:hi].astype(np.float32)).reshape(m, width)
            q2 = fill(q, ks, k.enc(np.arange(lo, hi).reshape(m, width)))
            return q2, int(q2.size)

        r, err = rec.call(go)
        q, size = r if not err else (q, -1)
        rec.ev("qinsert", lo=lo, hi=hi, items=list(range(lo, hi)), keys=keys[lo:hi].tolist(), size=size, err=err)
        return not err

    def delete(m):
        nonlocal q
        rec.pending("delete_mins %d times" % m)

        def step(q, _):
            q, ks, vs = BGPQ.delete_mins(q)
            return q, (ks, vs)

        f = take.setdefault(m, jax.jit(lambda q: jax.lax.scan(step, q, None, length=m)))

        def go():
            q2, (ks, vs) = f(q)
            ids = k.dec(jax.tree_util.tree_map(lambda a: a.reshape((m * width,) + a.shape[2:]), vs)).tolist()
            ks = np.asarray(ks, np.float64).reshape(-1)
            return q2, [INF if np.isinf(v) else int(v) if v == int(v) else -5 for v in ks], ids, int(q2.size)

        r, err = rec.call(go)
        q2, ks, ids, size = r if not err else (q, [], [], -1)
        rec.ev("qdelete", want=m * width, keys=ks, items=ids, size=size, err=err)
        q = q2
        return not err

    third = blocks // 3
    if insert(0, (blocks - third) * width) and delete(third) and insert((blocks - third) * width, n):
        rest = blocks - third
        if delete(rest):
            delete(1)


def filters(rec, kind, n, batch, seed, rounds):
    import jax.numpy as jnp
    from xtructure import numpy as xnp

    rnd = np.random.default_rng(seed)
    k = zoo.kind(kind, n, seed, False)
    rec.reset(kind=kind)
    for i in range(rounds):
        if rec.out_of_time():
            return
        xs = rnd.integers(0, n, batch)
        valid = rnd.random(batch) < 0.95
        prio = rnd.integers(0, 4, batch) if i % 2 else None
        rec.pending("unique_mask of %d" % batch)

        def go():
            kw = {} if prio is None else dict(key=jnp.asarray(prio.astype(np.float32)))
            m, ix, inv = xnp.unique_mask(k.enc(xs), filled=jnp.asarray(valid), return_index=True, return_inverse=True, **kw)
            return np.asarray(m).tolist(), np.asarray(ix).tolist(), np.asarray(inv).tolist()

        r, err = rec.call(go)
        m, ix, inv = r if not err else ([], [], [])
        rec.ev("unique", xs=xs.tolist(), valid=valid.tolist(), prio=[] if prio is None else prio.tolist(),
               wit=witness(n, xs, valid, prio), mask=m, index=ix, inverse=inv, err=err)
