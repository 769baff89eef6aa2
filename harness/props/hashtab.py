"""Driver for the hash table (C03, C04, C05)."""
import json
import random

import numpy as np

from harness import zoo


def ranks(values):
    """Dense ranks of a list of comparable numbers (equal values share a rank)."""
    order = sorted(set(values))
    return [order.index(v) for v in values]


PRIO_DTYPES = ["float32", "int32", "uint32", "float16", "bfloat16", "int8", "uint8", "float32"]


def spread(rank_list, dtype, rnd):
    """Concrete priorities of a dtype with the given order."""
    import jax.numpy as jnp

    top = max(rank_list) + 1
    if dtype == "float32":
        pool = rnd.choice([[-np.inf, -3.5, -1e-3, 0.0, 1e-30, 1.0, 3e38, np.inf], [1.0, 1.0000001, 1.0000002, 1.5, 2.0, np.inf, np.inf],
                           list(np.arange(top) - 2.0)])
        pool = sorted(set(np.float32(p) for p in pool))
    elif dtype in ("float16", "bfloat16"):
        pool = sorted(set([-8.0, -0.5, 0.0, 0.25, 1.0, 2.0, 30.0, np.inf]))
    else:
        ii = np.iinfo(dtype)
        pool = rnd.choice([[ii.min, ii.min + 1, 0, 1, ii.max - 1, ii.max], [ii.max - k for k in range(8)],
                           [2**24 - 1, 2**24, 2**24 + 1, 2**24 + 2, 2**25] if ii.max > 2**25 else [1, 2, 3, 4, 5, 6]])
        pool = sorted(set(pool))
    if len(pool) < top:
        pool = list(range(top))
    pick = sorted(rnd.sample(range(len(pool)), top))
    vals = [pool[pick[r]] for r in rank_list]
    return jnp.asarray(np.array(vals), dtype=getattr(jnp, dtype)), [float(v) for v in vals]


class HT:
    def __init__(self, rec, kind, seed):
        self.rec, self.kind = rec, kind
        self.rnd = random.Random("%s-%s" % (kind.cls.__name__, seed))
        self.h, self.m = [], []  # real tables; believed {id: address} (drives reads only)

    def reset(self, **kw):
        self.h, self.m = [], []
        self.rec.reset(kind=self.kind.cls.__name__, **kw)

    def _size(self, t):
        return self.rec.call(lambda: int(t.size))

    def _add(self, t, m):
        self.h.append(t)
        self.m.append(m)
        return len(self.h) - 1

    def new(self, cap, seed=0, bucket=None, mult=None, probes=None):
        from xtructure import HashTable

        kw = {}
        if bucket is not None:
            kw["bucket_size"] = bucket
        if mult is not None:
            kw["hash_size_multiplier"] = mult
        if probes is not None:
            kw["max_probes"] = probes
        self.rec.pending("build cap=%d %s" % (cap, kw))
        t, err = self.rec.call(HashTable.build, self.kind.cls, seed, cap, **kw)
        size = -1
        if not err:
            size, err = self._size(t)
        self.rec.ev("new", cap=cap, lim=probes is not None, size=size, err=err, cfg=dict(seed=seed, **kw))
        return self._add(t, {})

    def insert(self, h, x):
        self.rec.pending("insert %d" % x)

        def go():
            t, ins, at = self.h[h].insert(self.kind.enc(x))
            return t, bool(ins), int(at.index), int(t.size)

        r, err = self.rec.call(go)
        t, ins, addr, size = r if not err else (self.h[h], False, -1, -1)
        self.rec.ev("insert", h=h + 1, x=x, ins=ins, addr=addr, size=size, err=err)
        m = dict(self.m[h])
        if ins:
            m.setdefault(x, addr)
        return self._add(t, m)

    def pinsert(self, h, xs, valid=None, prio=None, prio_dtype=None):
        """valid: None (argument omitted), True/False (scalar) or list; prio: None or list of ranks."""
        import jax.numpy as jnp

        self.rec.pending("parallel_insert %s %s %s" % (xs, valid, prio))
        n = len(xs)
        eff = [True] * n if valid is None else ([bool(valid)] * n if isinstance(valid, bool) else [bool(v) for v in valid])
        pr, shown = (None, []) if prio is None else spread(prio, prio_dtype, self.rnd)

        def go():
            args = [self.kind.enc(xs)]
            kw = {}
            if valid is not None:
                args.append(jnp.asarray(valid) if not isinstance(valid, bool) else valid)
            if pr is not None:
                kw["unique_key"] = pr
            t, ins, uniq, at = self.h[h].parallel_insert(*args, **kw)
            return t, np.asarray(ins).tolist(), np.asarray(uniq).tolist(), np.asarray(at.index).tolist(), int(t.size)

        r, err = self.rec.call(go)
        t, ins, uniq, addr, size = r if not err else (self.h[h], [], [], [], -1)
        self.rec.ev("parallel_insert", h=h + 1, xs=xs, valid=eff, prio=[] if prio is None else prio,
                    form="default" if valid is None else type(valid).__name__, key=[str(v) for v in shown], key_dtype=prio_dtype or "",
                    ins=ins, uniq=uniq, addr=addr, size=size, err=err)
        m = dict(self.m[h])
        for i, x in enumerate(xs):
            if not err and i < len(ins) and ins[i]:
                m.setdefault(x, addr[i])
        return self._add(t, m)

    def lookup(self, h, x):
        self.rec.pending("lookup %d" % x)

        def go():
            at, f = self.h[h].lookup(self.kind.enc(x))
            return bool(f), int(at.index)

        r, err = self.rec.call(go)
        f, a = r if not err else (False, -1)
        self.rec.ev("lookup", h=h + 1, xs=[x], valid=[True], found=[f], addr=[a], err=err)

    def plookup(self, h, xs, valid=None):
        import jax.numpy as jnp

        self.rec.pending("lookup_parallel %s" % xs)

        def go():
            q = self.kind.enc(xs)
            at, f = self.h[h].lookup_parallel(q) if valid is None else self.h[h].lookup_parallel(q, jnp.asarray(valid))
            return np.asarray(f).tolist(), np.asarray(at.index).tolist()

        r, err = self.rec.call(go)
        f, a = r if not err else ([], [])
        self.rec.ev("lookup_parallel", h=h + 1, xs=xs, valid=[True] * len(xs) if valid is None else valid, found=f, addr=a, err=err)

    def getitem(self, h, addrs):
        import jax.numpy as jnp
        from xtructure.hashtable.types import HashIdx

        self.rec.pending("getitem %s" % addrs)

        def go():
            return self.kind.dec(self.h[h][HashIdx(index=jnp.asarray(addrs, dtype=jnp.uint32))]).tolist()

        r, err = self.rec.call(go)
        self.rec.ev("getitem", h=h + 1, addr=addrs, out=r if not err else [], err=err)

    def audit(self, h, ids, width, singles=2):
        """Look up ids (padded to a fixed width) and read all believed addresses of table value h."""
        ids = list(ids)
        for i in range(0, len(ids), width):
            part = ids[i:i + width]
            self.plookup(h, part + [part[0]] * (width - len(part)))
        for x in self.rnd.sample(ids, min(singles, len(ids))):
            self.lookup(h, x)
        ad = [a for a in self.m[h].values()]
        if ad:
            w = width
            for i in range(0, len(ad), w):
                part = ad[i:i + w]
                self.getitem(h, part + [part[0]] * (w - len(part)))


# --------------------------------------------------------------------------- steering
def pool_of(kind, n_ids, B, seed):
    """{(start, step): [ids]} for a table of B buckets, from the record type's own hash_pair."""
    import jax

    if isinstance(kind, zoo.ScriptKind):
        return {(s, st): [kind.id_of(s, st, c) for c in range(kind.per)] for s in range(B) for st in range(1, max(2, B), 2)}
    out = {}
    try:
        p, s = jax.vmap(lambda r: r.hash_pair(seed))(kind.enc(list(range(n_ids))))
        p, s = np.asarray(p), np.asarray(s)
        for i in range(n_ids):
            out.setdefault((int(p[i]) & (B - 1), (int(s[i]) & (B - 1)) | 1), []).append(i)
    except Exception:  # noqa: BLE001 - steering only
        pass
    return out


def impl_replay(rec, behaviours, kinds, limit, width, seed):
    """Behaviours of HashImpl (hash functions and batch sizes) on real tables of the same geometry."""
    with open(behaviours) as fh:
        trs = json.load(fh)
    rnd = random.Random("impl-%s" % seed)
    rnd.shuffle(trs)
    groups = {}
    for t in trs:
        groups.setdefault((t["B"], t["K"], t["limit"]), []).append(t)
    per = max(1, limit // max(1, len(groups) * len(kinds)))
    for (B, K, lim), ts in sorted(groups.items()):
        for kn in kinds:
            if rec.out_of_time():
                return
            k = zoo.kind(kn, 400 if kn == "U32" else 260, seed)
            d = HT(rec, k, seed)
            tseed = 0 if kn == "Script" else rnd.randrange(1, 100)
            pool = pool_of(k, k.n, B, tseed)
            base = None
            for t in ts[:per]:
                if rec.out_of_time():
                    return
                d.reset(model="HashImpl", B=B, K=K, limit=lim, start=t["start"], step=t["step"], hist=t["hist"])
                h = d.new(B * K, tseed, K, 1, None if lim == B * K else lim)
                used, ids = {}, []
                for s, st in zip(t["start"], t["step"]):
                    c = pool.get((s, st)) or [rnd.randrange(k.n)]
                    j = used.get((s, st), 0)
                    used[(s, st)] = j + 1
                    ids.append(c[(j * 7 + t["start"][0]) % len(c)] if len(c) > 40 else c[j % len(c)])
                pos = 0
                for n in t["hist"]:
                    batch = ids[pos:pos + n]
                    pos += n
                    if n == 1 and rnd.random() < 0.5:
                        h = d.insert(h, batch[0])
                        continue
                    # fixed width: pad with invalid positions (anything) at random places, keeping the order
                    xs, valid = [], []
                    slots = sorted(rnd.sample(range(width), n))
                    bi = 0
                    for i in range(width):
                        if i in slots:
                            xs.append(batch[bi])
                            valid.append(True)
                            bi += 1
                        else:
                            xs.append(rnd.choice(ids))
                            valid.append(False)
                    h = d.pinsert(h, xs, valid)
                d.audit(h, ids + [rnd.randrange(k.n)], width, singles=1)
                if rnd.random() < 0.3:
                    base = rnd.randrange(len(d.h))
                    d.audit(base, ids, width, singles=1)


def dedupe_replay(rec, transitions, kind, bucket, seed, part, parts):
    """Every small batch of MCHash (records, validity, priorities, earlier contents)."""
    with open(transitions) as fh:
        trs = json.load(fh)[part::parts]
    k = zoo.kind(kind, 40, seed)
    d = HT(rec, k, seed)
    rnd = random.Random("dedupe-%s-%s" % (seed, part))
    dts = [PRIO_DTYPES[(part + seed) % len(PRIO_DTYPES)], PRIO_DTYPES[(part + seed + 3) % len(PRIO_DTYPES)]]
    d.reset(model="MCHash")
    roots = {}
    names = {}
    for n, t in enumerate(trs):
        if rec.out_of_time():
            return
        if n % 40 == 0:
            if n:
                d.reset(model="MCHash")
            ids = rnd.sample(range(1, k.n), 2) if n % 3 else [0, rnd.randrange(1, k.n)]
            names = {1: ids[0], 2: ids[1]}
            e = d.new(6, seed, bucket)
            roots = {(): e, (1,): d.insert(e, names[1]), (2,): d.pinsert(e, [names[2]] * 3, [False, True, True])}
        h = roots[tuple(t["pre"])]
        xs = [names[x] for x in t["xs"]]
        form = n % 4
        if form == 0 and all(t["valid"]):
            valid = rnd.choice([None, True])
        elif not any(t["valid"]) and form == 1:
            valid = False
        else:
            valid = t["valid"]
        if t["prio"][0] == 1 and len(set(t["prio"])) == 1 and form < 2:
            h2 = d.pinsert(h, xs, valid)
        else:
            h2 = d.pinsert(h, xs, valid, [p - 1 for p in t["prio"]], dts[n % 2])
        if n % 5 == 0:
            d.plookup(h2, [names[1], names[2], names[1]])
            if d.m[h2]:
                ad = list(d.m[h2].values())
                d.getitem(h2, (ad * 3)[:3])


def random_histories(rec, kinds, configs, width, histories, steps, seed, n_ids=48, over=False, near=False, prios=True):
    """configs: [cap, bucket, mult, probes]; over: may exceed the declared capacity."""
    rnd = random.Random("ht-%s" % seed)
    for hist in range(histories):
        if rec.out_of_time():
            return
        cap, bucket, mult, probes = configs[hist % len(configs)]
        kn = kinds[(hist // len(configs)) % len(kinds)]
        k = zoo.kind(kn, n_ids, seed, near)
        d = HT(rec, k, "%s-%s" % (seed, hist))
        d.rnd = rnd
        d.reset(cap=cap, bucket=bucket, mult=mult, probes=probes)
        tseed = rnd.choice([0, 1, 7, 12345])
        cur = d.new(cap, (hist % 2) * 17 + seed % 5, bucket, mult, probes)
        universe = rnd.sample(range(k.n), min(k.n, cap + 6 if over else cap))
        if rnd.random() < 0.5 and 0 not in universe:
            universe[0] = 0
        outside = [i for i in range(k.n) if i not in universe] or [0]
        dts = rnd.choice([None, "float32", "int32"]) if prios else None
        del tseed
        for step in range(steps):
            r = rnd.random()
            if rnd.random() < 0.06:
                cur = rnd.randrange(len(d.h))
            if r < 0.2:
                cur = d.insert(cur, rnd.choice(universe))
            elif r < 0.6:
                m = rnd.randrange(1, width + 1)
                few = rnd.sample(universe, min(len(universe), rnd.choice([1, 2, width, width])))
                xs = [rnd.choice(few) for _ in range(width)]
                valid = [i < m for i in range(width)]
                rnd.shuffle(valid)
                if not over:
                    for i in range(width):
                        if not valid[i] and rnd.random() < 0.3:
                            xs[i] = rnd.choice(outside)
                pr = None if dts is None or rnd.random() < 0.4 else [rnd.randrange(3) for _ in range(width)]
                if pr is not None:
                    pr = ranks(pr)
                cur = d.pinsert(cur, xs, valid, pr, dts)
            elif r < 0.8:
                d.plookup(cur, [rnd.choice(universe if rnd.random() < 0.7 else outside) for _ in range(width)])
            elif r < 0.9:
                d.lookup(cur, rnd.choice(universe if rnd.random() < 0.7 else outside))
            elif d.m[cur]:
                ad = list(d.m[cur].values())
                d.getitem(cur, [rnd.choice(ad) for _ in range(width)])
        d.audit(cur, universe + outside[:3], width)
        for o in rnd.sample(range(len(d.h)), min(2, len(d.h))):
            d.audit(o, rnd.sample(universe, min(len(universe), width)), width, singles=1)


def fillings(rec, kinds, configs, width, histories, seed, n_ids=48):
    """Tables filled to the last slot and beyond, batch by batch."""
    rnd = random.Random("fill-%s" % seed)
    for hist in range(histories):
        if rec.out_of_time():
            return
        cap, bucket, mult, probes = configs[hist % len(configs)]
        k = zoo.kind(kinds[(hist // len(configs)) % len(kinds)], n_ids, seed, bool(hist % 3 == 0))
        d = HT(rec, k, "%s-%s" % (seed, hist))
        d.rnd = rnd
        d.reset(cap=cap, bucket=bucket, mult=mult, probes=probes)
        cur = d.new(cap, hist % 5, bucket, mult, probes)
        order = rnd.sample(range(k.n), k.n)
        at = 0
        for _ in range(cap):
            m = rnd.randrange(1, width + 1)
            xs = order[at:at + m]
            at += len(xs)
            xs += [rnd.choice(order[:at]) for _ in range(width - len(xs))]
            cur = d.pinsert(cur, xs, [i < m or rnd.random() < 0.5 for i in range(width)])
            if len(d.m[cur]) >= cap or at >= k.n:
                break
        d.pinsert(cur, [rnd.choice(order[at:] or order) for _ in range(width)])
        d.plookup(cur, order[:width])


def big(rec, kind, cap, bucket, batch, seed):
    """A table with many records inserted in big batches, duplicates across batches."""
    rnd = np.random.default_rng(seed)
    k = zoo.kind(kind, int(cap * 0.9), seed, False)
    d = HT(rec, k, seed)
    d.reset(cap=cap, bucket=bucket)
    h = d.new(cap, 3, bucket)
    order = rnd.permutation(k.n)
    for i in range(0, k.n, batch // 2):
        xs = np.concatenate([order[i:i + batch // 2], rnd.integers(0, k.n, batch)])[:batch].tolist()
        h = d.pinsert(h, xs)
        if i == 0:
            first = h
    d.plookup(h, order[:batch].tolist())
    ad = list(d.m[h].values())[:batch]
    d.getitem(h, ad)
    d.plookup(first, order[:batch].tolist())
