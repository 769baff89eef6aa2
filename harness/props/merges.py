"""C22: the merge back ends of the queue, called directly."""
import json
import os
import random

import numpy as np

SETTINGS = {
    "XTRUCTURE_BGPQ_MERGE_BLOCK_SIZE": ["", "1", "2", "3", "4", "16", "64", "auto"],
    "XTRUCTURE_BGPQ_MERGE_UNROLL_MAX": ["", "0", "1", "64"],
    "XTRUCTURE_BGPQ_MERGE_VALUE_PACKING": ["", "auto", "pad", "scalar", "shard"],
    "XTRUCTURE_BGPQ_MERGE_VALUE_SCALAR_MAX": ["", "1", "2", "5"],
}


def keys(rnd, n, dt, style):
    """n ascending keys of the type, the last of them infinite when there is an infinity."""
    from harness.props.pq import key_table

    if dt.startswith("float") or dt == "bfloat16":
        return np.append(np.asarray(key_table(rnd, n - 1, dt, style)[0]), np.inf).astype(np.float64)
    lo, hi = (0, 250) if dt == "uint8" else (-2**31, 2**31 - 1) if dt == "int32" else (0, 2**32 - 1)
    if style == "extreme":
        mid = sorted(rnd.sample(range(lo + 1, hi), n - 2))
        return np.array([lo] + mid + [hi], np.int64)
    at = rnd.randrange(lo, hi - n)
    return np.arange(at, at + n).astype(np.int64)


def merges(rec, path, seed, part, parts, rounds):
    import jax.numpy as jnp

    from harness import zoo
    from xtructure.bgpq import merge_split

    try:
        from xtructure.bgpq.merge_split.parallel import merge_arrays_parallel_kv as with_values
    except ImportError:
        with_values = None
    todo = []
    if path:
        with open(path) as fh:
            emitted = [t for t in json.load(fh) if t["a"] or t["b"]]
        shapes = {}
        for t in emitted:
            shapes.setdefault((len(t["a"]), len(t["b"])), []).append(t)
        todo = sorted(shapes)[part::parts]
    hist = 0
    while True:
        rnd = random.Random("merge-%s-%s" % (seed, hist))
        for n, v in SETTINGS.items():
            v = rnd.choice(v)
            os.environ.pop(n, None)
            if v:
                os.environ[n] = v
        setting = ",".join(n.split("MERGE_")[1] + "=" + os.environ[n] for n in SETTINGS if n in os.environ)
        dt = rnd.choice(["float32", "float16", "int32", "uint32", "bfloat16", "uint8"])
        rec.reset(setting=setting, dtype=dt)
        if path:
            if hist >= len(todo):
                return
            cases = shapes[todo[hist]]
            rnd.shuffle(cases)
            cases = cases[:rounds]
            nk = 1 + max(max(t["a"] + t["b"]) for t in emitted)
        else:
            n, m = rnd.choice([(1, 1), (5, 9), (16, 16), (17, 31), (64, 64), (1, 40), (40, 1), (33, 95), (128, 100), (0, 7), (9, 0), (2, 2)])
            nk = rnd.choice([2, 5, 30])
            cases = [dict(a=sorted(rnd.randrange(nk) for _ in range(n)), b=sorted(rnd.randrange(nk) for _ in range(m))) for _ in range(3)]
        hist += 1
        tab = keys(rnd, nk + 2, dt, rnd.choice(["small", "extreme", "tight"]))
        off = rnd.randrange(len(tab) - nk + 1)                  # which part of the table the ranks fall on
        which = rnd.choice(["parallel", "values", "sort", "loop", "parallel", "values"])
        kind = rnd.choice(["Mix", "Nest", "Wide", "Bits", "Packed", "Grid", "Scal", "Deep", "U32"])
        for t in cases:
            if rec.out_of_time():
                return
            a = jnp.asarray(np.array([tab[i + off] for i in t["a"]]), dt)
            b = jnp.asarray(np.array([tab[i + off] for i in t["b"]]), dt)
            if which == "loop" and not (t["a"] and t["b"]):
                continue                                            # the sequential kernel takes no empty input
            if which == "values" and (with_values is None or not (t["a"] and t["b"])):
                continue                                            # the queue never merges empty blocks
            rec.pending("%s merge of %s keys %s %s under %s" % (which, dt, t["a"], t["b"], setting))
            ev = dict(how=which, a=t["a"], b=t["b"], out=[], whole=True, err="")
            ev["from"] = []
            try:
                if which == "values":
                    k = zoo.kind(kind, 1 + len(t["a"]) + len(t["b"]), seed)
                    ids = np.arange(len(t["a"]) + len(t["b"]))
                    out, val = with_values(a, k.enc(ids[: len(t["a"])]), b, k.enc(ids[len(t["a"]):]))
                    got = [int(i) for i in np.asarray(k.dec(val)).reshape(-1)]
                else:
                    fn = dict(parallel=merge_split.merge_arrays_parallel, sort=merge_split.merge_sort_split_idx, loop=merge_split.merge_arrays_indices_loop)[which]
                    out, idx = fn(a, b)
                    got = [int(i) for i in np.asarray(idx)]
                ev["whole"] = all(i >= 0 for i in got) and out.dtype == a.dtype
                ev["from"] = got
                back = {float(v): i for i, v in enumerate(np.asarray(jnp.asarray(tab, dt)).astype(np.float64))}
                ev["out"] = [back.get(float(v), -1 - off) - off for v in np.asarray(out).astype(np.float64)]
            except Exception as exc:  # noqa: BLE001
                ev["err"] = "%s: %s" % (type(exc).__name__, str(exc)[:200])
            rec.ev("merge", **ev)
        if not path and hist >= rounds:
            return
