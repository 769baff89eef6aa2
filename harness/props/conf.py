"""C10, C22: the same questions put to differently configured processes, on this and on emulated devices."""
import hashlib
import json
import os
import random
import subprocess
import sys
import tempfile

import numpy as np

from harness import emu

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def environment(names, conf, dev):
    env = {k: v for k, v in os.environ.items() if not k.startswith("XTRUCTURE_") or k == "XTRUCTURE_REPO"}
    env.pop("VERIF_EMULATE", None)
    if dev != "cpu":
        env["VERIF_EMULATE"] = dev
    env.update({n: v for n, v in zip(names, conf) if v})
    return env


def digest(*arrays):
    h = hashlib.sha256()
    for a in arrays:
        a = np.asarray(a)
        h.update(("%s%s" % (a.dtype, a.shape)).encode() + np.ascontiguousarray(a).tobytes())
    return h.hexdigest()[:24]


def across(rec, path, rows, seed):
    """One child process per configuration, the first with nothing set; their answers side by side."""
    with open(path) as fh:
        emitted = json.load(fh)
    todo = [emitted[r] for r in rows]
    base = dict(dev="cpu", names=[""] * 14, conf=[""] * 14)
    rec.reset(seed=seed)
    for row in [base] + todo:
        if row is not base and rec.out_of_time():
            return
        dev = row["dev"]
        setting = dev + ":" + ",".join("%s=%s" % (n.replace("XTRUCTURE_", ""), v) for n, v in zip(row["names"], row["conf"]) if v)
        rec.pending("answers under " + setting)
        with tempfile.TemporaryFile("w+") as out:
            p = subprocess.run([sys.executable, "-m", "harness.props.conf", str(seed)], cwd=ROOT, env=environment(row["names"], row["conf"], dev),
                               stdout=out, stderr=subprocess.PIPE, text=True, timeout=300)
            out.seek(0)
            lines = [json.loads(x) for x in out]
        if p.returncode or not lines:
            rec.ev("say", dev=dev, conf=row["conf"], kind="start", x="", narrow=False, v="", err="process failed: " + p.stderr[-600:], setting=setting)
            continue
        for e in lines:
            rec.ev("say", dev=dev, conf=row["conf"], setting=setting, **e)


def refusals(rec, path, picks, seed):
    """Unsupported values, in otherwise supported configurations."""
    with open(path) as fh:
        emitted = json.load(fh)
    rec.reset(seed=seed)
    for r in picks:
        if rec.out_of_time():
            return
        t = emitted[r]
        rec.pending("refusal of %s=%s" % (t["names"][t["at"] - 1], t["bad"]))
        p = subprocess.run([sys.executable, "-m", "harness.props.conf", "try", t["reads"]], cwd=ROOT, env=environment(t["names"], t["conf"], t["dev"]),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
        if p.returncode or p.stdout.strip().split(" ")[0] not in ("refused", "accepted"):
            raise RuntimeError("tryout failed: %s %s" % (p.stdout, p.stderr[-800:]))
        rec.ev("tryout", dev=t["dev"], conf=t["conf"], at=t["at"], name=t["names"][t["at"] - 1], refused=p.stdout.startswith("refused"), how=p.stdout.strip()[:120])


def tryout(reads):
    import jax.numpy as jnp

    try:
        import xtructure
        from xtructure import BGPQ, FieldDescriptor, HashTable, xtructure_dataclass

        @xtructure_dataclass(bitpack="aggregate")
        class P:
            a: FieldDescriptor.packed_tensor(shape=(9,), packed_bits=3, fill_value=1)
            b: FieldDescriptor.scalar(dtype=jnp.uint8, bits=5, default=0)

        x = P.default((2,))
        if reads == "declare":
            x[0].hash()
        elif reads == "queue":
            q = BGPQ.build(64, 8, P, jnp.float32)
            for i in range(3):
                q = q.insert(jnp.arange(8, dtype=jnp.float32) + i, P.default((8,)))
        elif reads == "table":
            HashTable.build(P, 1, 32).parallel_insert(P.default((8,)))
        elif reads == "pack":
            x.packed.unpack()
        del xtructure
    except Exception as exc:  # noqa: BLE001
        print("refused %s %s" % (type(exc).__name__, str(exc)[:90]))
        return
    print("accepted")


def answers(seed, say):
    import jax
    import jax.numpy as jnp

    from harness import zoo
    from harness.props import bits, hashfn
    from xtructure import BGPQ, HashTable
    from xtructure import numpy as xnp

    rnd = random.Random("conf-%d" % seed)

    def guarded(kind, x, narrow, fn):
        try:
            v = digest(*[np.asarray(a) for a in jax.tree_util.tree_leaves(jax.block_until_ready(fn()))])
        except Exception as exc:  # noqa: BLE001
            say(kind, x, narrow, "", "%s: %s" % (type(exc).__name__, str(exc)[:200]))
            return
        say(kind, x, narrow, v, "")

    names = ["U32", "Mix", "Nest", "Packed", "Wide", "Tiny", "Bits", "Scal", "Deep", "Grid"]
    kn = {n: zoo.kind(n, 24, seed) for n in names}
    # hashes and views: shapes on both sides of the thresholds, one beyond every threshold in use
    rc = random.Random("conf-classes-%d" % seed)
    big = rc.choice([8191, 8192, 8193, 9001])
    cl = [zoo.kind(n, 2, 0).cls for n in [rc.choice(names), "Bits"]]
    cl.append(hashfn.make_class("CBig", [(4, (3,)), (4, (big,)), (rc.choice([1, 2]), (5,))], rc))
    cl.append(hashfn.make_class("CMid", [(rc.choice([1, 2, 4]), rc.choice([(), (1,), (3,), (7,), (0,), (62,), (64,), (65,)])) for _ in range(rc.choice([2, 4, 6]))], rc))
    cl.append(hashfn.make_class("CNil", [(rc.choice([1, 2, 4]), rc.choice([(0,), (0, 3)])) for _ in range(rc.choice([1, 2]))], rc))
    # a packed class drawn at random
    rb = random.Random("conf-bits-%d" % seed)
    leaves = []
    for _ in range(rb.choice([2, 3, 5])):
        s = rb.choice([[], [], [1], [3], [5], [9], [33], [2, 2]])
        leaves.append(dict(b=rb.choice([rb.randint(1, 32), rb.randint(1, 9)]), n=int(np.prod(s)) if s else 1, s=s))
    agg, lv = bits.make_class(leaves, rb, "x", **rb.choice([{}, dict(aggregate_bitpack=True), dict(bitpack="aggregate")]))
    made = bits.construct(agg, lv, {x["path"]: jnp.asarray(np.array(bits.rand_values(rb, 8 * x["n"], x["b"], "random"), np.uint64).reshape([8] + x["s"]).astype(x["d"])) for x in lv})
    cl.append(agg)
    for ci, cls in enumerate(cl):
        fl = hashfn.flat_fields(cls)
        if fl is None:
            continue
        narrow = hashfn.declares_bits(cls)
        if cls is agg:
            recs = made
        elif narrow:
            k = next(k for k in kn.values() if k.cls is cls)
            recs = k.enc(np.arange(8))
        else:
            rows = [hashfn.random_row(rnd, fl) for _ in range(8)]
            recs = hashfn.build(cls, {p: jnp.asarray(np.stack([r[p] for r in rows])) for p in rows[0]})
        sds = jnp.array([0, 1, 2**32 - 1, 77, 0, 5, 123456789, 2**31], jnp.uint32)
        tag = "%s:%d" % (cls.__name__, ci)
        guarded("hash", tag + ":mapped", narrow, lambda: jax.jit(jax.vmap(lambda r, s: (r.hash(s), r.hash_with_uint32ed(s)[0], r.hash_pair(s), r.hash_pair_with_uint32ed(s)[0])))(recs, sds))
        guarded("view", tag + ":mapped", narrow, lambda: jax.jit(jax.vmap(lambda r: (r.bytes, r.uint32ed)))(recs))
        guarded("hash", tag + ":one", narrow, lambda: (recs[3].hash(9), recs[3].hash_pair_with_uint32ed(9)[0]))
    # packing
    for n, x in (("Bits", kn["Bits"].enc(np.arange(12).reshape(3, 4))), ("agg", made)):
        guarded("pack", n, False, lambda: x.packed)
        guarded("pack", n + ":jit", False, lambda: jax.jit(lambda v: v.packed)(x))
        guarded("pack", n + ":back", False, lambda: (x.packed.unpack(), x.packed.unpack(dtype_policy="declared")))
    pk = kn["Packed"].enc(np.arange(6))
    guarded("pack", "fields", False, lambda: pk)
    # duplicates: narrow and wide records, with and without costs
    for n in rc.sample(["U32", "Mix", "Tiny"], 1) + rc.sample(["Wide", "Bits", "Packed"], 1):
        k = kn[n]
        m = rc.choice([5, 16, 33])
        ids = [rnd.randrange(rnd.choice([3, 24])) for _ in range(m)]
        valid = jnp.array([rnd.random() < 0.8 for _ in range(m)])
        cost = jnp.array([rnd.choice([0.5, 1.0, -3.25, np.inf]) for _ in range(m)], jnp.float32)
        x = k.enc(np.array(ids))
        guarded("mask", "%s:%s" % (n, ids), False, lambda: jax.jit(lambda x, v: xnp.unique_mask(x, filled=v))(x, valid))
        guarded("mask", "%s:%s:cost" % (n, ids), False, lambda: jax.jit(lambda x, c: xnp.unique_mask(x, key=c))(x, cost))
    # table
    for n in rc.sample(["U32", "Mix", "Wide", "Nest", "Bits", "Packed", "Deep"], 1):
        k = kn[n]
        t = [HashTable.build(k.cls, 7, 64, rc.choice([2, 4, 8]))]
        ids = [[rnd.randrange(24) for _ in range(16)] for _ in range(2)]

        def step(i, key=None):
            t[0], up, un, _ = t[0].parallel_insert(k.enc(np.array(ids[i])), jnp.array([True] * 13 + [False] * 3), key)
            return up, un, t[0].size

        guarded("table", "%s:%s" % (n, ids[0]), False, lambda: step(0))
        guarded("table", "%s:%s:%s" % (n, ids[0], ids[1]), False, lambda: step(1, jnp.arange(16, dtype=jnp.float32) % 3))
        guarded("table", "%s:%s:%s:found" % (n, ids[0], ids[1]), False, lambda: t[0].lookup_parallel(k.enc(np.arange(24)))[1])
    # queue: distinct keys, so that batches are determined
    n = rc.choice(["Mix", "Nest", "U32", "Packed", "Grid"])
    b = rc.choice([4, 8, 1, 5])
    q = [BGPQ.build(6 * b, b, kn[n].cls, jnp.float32)]
    ks = rnd.sample(range(100), 5 * b)
    log = []

    def push(i):
        part = ks[i * b:(i + 1) * b]
        q[0] = q[0].insert(jnp.array(part, jnp.float32), kn[n].enc(np.array([j % 24 for j in part])))
        return q[0].size

    def pop():
        q[0], k2, v2 = q[0].delete_mins()
        live = np.isfinite(np.asarray(k2))
        return [np.asarray(k2)] + [np.asarray(a)[live] for a in jax.tree_util.tree_leaves(v2)]

    for a in ["+0", "+1", "-", "+2", "+3", "-", "-", "+4", "-", "-", "-"]:
        log.append(a)
        guarded("queue", "%s:%s:%s:%s" % (n, b, ks, "".join(log)), False, (lambda: push(int(a[1]))) if a[0] == "+" else pop)


def main():
    emu.install()
    if sys.argv[1] == "try":
        return tryout(sys.argv[2])
    out = sys.stdout

    def say(kind, x, narrow, v, err):
        out.write(json.dumps(dict(kind=kind, x=x, narrow=narrow, v=v, err=err)) + "\n")
        out.flush()

    answers(int(sys.argv[1]), say)


if __name__ == "__main__":
    main()
