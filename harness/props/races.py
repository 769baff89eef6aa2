"""C23: the accelerators' kernels under every interleaving of their programs."""
import inspect
import json
import os
import random

import numpy as np

from harness import machine


def find(module, name, *args, **kw):
    """An inner function of the library, or None where it is not there in this form (the tables are still judged as a whole)."""
    import importlib

    try:
        fn = getattr(importlib.import_module(module), name)
        inspect.signature(fn).bind(*args, **kw)
        return fn
    except (ImportError, AttributeError, TypeError):
        return None


def setenv(**kw):
    for n, v in kw.items():
        os.environ.pop(n, None)
        if v not in ("", None):
            os.environ[n] = str(v)


def drawn(rnd):
    """Larger cases than the model's, on a random schedule."""
    while True:
        cap, b = rnd.choice([(4, 2), (8, 1), (8, 4), (16, 2), (2, 5), (4, 32), (2, 31), (1, 7), (1, 1)])
        n = rnd.choice([2, 3, 5, 8])
        near = rnd.random() < 0.7
        occ = []
        for _ in range(cap):
            k = rnd.choice([0, b, max(0, b - 1), max(0, b - 2), rnd.randint(0, b)])
            occ.append([1] * k + [0] * (b - k))
        yield dict(cap=cap, b=b, probe=rnd.choice([cap, cap, max(1, cap // 2), 1]), occ=occ, start=[0 if near else rnd.randrange(cap) for _ in range(n)],
                   step=[rnd.randrange(0, cap) | 1 for _ in range(n)], active=[rnd.random() < 0.9 for _ in range(n)], sched=[])


def reserve(rec, path, seed, part, parts, count):
    machine.install()
    import jax.numpy as jnp

    one = jnp.zeros((1,), jnp.uint32)
    fn = find("xtructure.hashtable.insert_triton", "reserve_slots_triton", one, one, one, one, bucket_size=1, capacity=1)
    if fn is None:
        return
    rnd = random.Random("reserve-%s-%s" % (seed, part))
    if path:
        with open(path) as fh:
            todo = json.load(fh)[part::parts]
        rnd.shuffle(todo)
        todo = todo[:count]
    else:
        src = drawn(rnd)
        todo = (next(src) for _ in range(count))
    rec.reset(seed=seed)
    for t in todo:
        if rec.out_of_time():
            return
        setenv(XTRUCTURE_HASHTABLE_TRITON_INSERT_MAX_PROBE_BUCKETS=t["probe"] if t["probe"] != t["cap"] else rnd.choice(["", t["cap"], "auto"]))
        rec.pending("reserve %s" % t)
        n = len(t["start"])

        def u32(v):
            return jnp.asarray(np.array(v, np.uint32))

        def go():
            # a spare bucket after the last one, as tables have
            occ = [sum(bit << i for i, bit in enumerate(row)) for row in t["occ"]] + [0]
            (occ1, bucket, slot, ins), m = machine.run(t["sched"], rnd, fn, u32(occ), u32(t["start"]), u32(t["step"]), jnp.asarray(np.array(t["active"])),
                                                       bucket_size=t["b"], capacity=t["cap"])
            return m, [int(v) for v in occ1], [int(v) for v in bucket], [int(v) for v in slot], [bool(v) for v in ins]

        r, err = rec.call(go)
        if err:
            rec.ev("reserve", err=err, fault="", **{k: t[k] for k in ("cap", "b", "probe", "start", "step", "active", "sched")})
            continue
        m, occ1, bucket, slot, ins = r
        private = [r for r in m.refs if not r.shared]
        rec.ev("reserve", err="", fault=m.fault or ("writes past the table" if occ1[-1] else ""), cap=t["cap"], b=t["b"], probe=t["probe"], occ0=t["occ"],
               occ1=[[v >> i & 1 for i in range(t["b"])] if v >> t["b"] == 0 else [2] * t["b"] for v in occ1[:-1]],
               start=t["start"], step=t["step"], active=t["active"], bucket=bucket, slot=slot, ins=ins, sched=m.log, n=n,
               writers=max([len(w) for r in private for w in r.writers.values()] or [0]))


def blocks(rec, seed, count):
    """Merges whose blocks run in any order, on memory that starts as garbage."""
    machine.install()
    import jax.numpy as jnp

    from harness import zoo
    from xtructure.bgpq import merge_split

    one = jnp.zeros((1,), jnp.float32)
    values = find("xtructure.bgpq.merge_split.parallel", "merge_arrays_parallel_kv", one, one, one, one)
    rnd = random.Random("blocks-%s" % seed)
    rec.reset(seed=seed)
    for i in range(count):
        if rec.out_of_time():
            return
        n, m, nk = rnd.choice([1, 2, 3, 5, 8]), rnd.choice([1, 2, 4, 7]), rnd.choice([1, 3, 20])
        a, b = sorted(rnd.randrange(nk) for _ in range(n)), sorted(rnd.randrange(nk) for _ in range(m))
        if rnd.random() < 0.3:                                       # a side that is exhausted at once, or padding
            b = [30] * m
        setenv(XTRUCTURE_BGPQ_MERGE_BLOCK_SIZE=rnd.choice([1, 2, 3, 4, 8, 64 if i % 9 == 0 else 5]), XTRUCTURE_BGPQ_MERGE_UNROLL_MAX=rnd.choice(["", 0, 2]),
               XTRUCTURE_BGPQ_MERGE_VALUE_PACKING=rnd.choice(["", "pad", "scalar", "shard"]))
        kn = rnd.choice(["Mix", "Wide", "Packed", "Nest"])
        k = zoo.kind(kn, 24, seed)
        how = "values" if values is not None and i % 2 else "index"
        rec.pending("%s merge of %s and %s" % (how, a, b))

        def arr(v):
            return jnp.asarray([np.inf if x == 30 else float(x) for x in v], jnp.float32)

        def go():
            if how == "values":
                (out, val), mc = machine.run([], rnd, values, arr(a), k.enc(np.arange(n)), arr(b), k.enc(np.arange(n, n + m)))
                src = [int(x) for x in np.asarray(k.dec(val))]
            else:
                (out, idx), mc = machine.run([], rnd, merge_split.merge_arrays_parallel, arr(a), arr(b))
                src = [int(x) for x in np.asarray(idx)]
            return mc, [30 if x == np.inf else int(x) if x == int(x) and abs(x) < 1000 else -7 for x in np.nan_to_num(np.asarray(out, np.float64), nan=-7, posinf=np.inf)], src

        r, err = rec.call(go)
        mc, out, src = r if not err else (None, [], [])
        rec.ev("merge", err=err, fault="" if err else mc.fault, a=a, b=b, out=out, how=how,
               writers=0 if err else max([len(w) for r in mc.refs for w in r.writers.values()] or [0]), **{"from": src})


def tables(rec, seed, kinds, configs, histories, steps):
    """Whole tables whose batches are inserted by interleaved programs."""
    machine.install()
    from harness.props import hashtab
    from xtructure import HashTable

    rnd = random.Random("tables-%s" % seed)
    plain = HashTable.parallel_insert

    def on_machine(self, *args, **kw):
        out, m = machine.run([], rnd, lambda: plain(self, *args, **kw))
        if m.fault:
            raise RuntimeError(m.fault)
        return out

    HashTable.parallel_insert = on_machine
    hashtab.random_histories(rec, kinds, configs, 5, histories, steps, seed, n_ids=24)
