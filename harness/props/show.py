"""Printing records (C24): records what the text shows, judges nothing."""
import json
import os
import random
import re

import jax.numpy as jnp
import numpy as np

from harness import zoo
from xtructure import FieldDescriptor as FD
from xtructure import xtructure_dataclass
from xtructure.core.xtructure_decorators import annotate

os.environ.pop("COLUMNS", None)
ANSI = re.compile(r"\x1b\[[0-9;?]*[A-Za-z]|\x1b\]8;[^\x1b\x07]*(?:\x1b\\|\x07)")


@xtructure_dataclass
class CounterWithoutAnyTextOfItsOwn:
    x: FD.scalar(dtype=jnp.uint32)


@xtructure_dataclass
class TripleOfFieldsWithOneThatCounts:
    y: FD.tensor(dtype=jnp.uint8, shape=(2,))
    x: FD.scalar(dtype=jnp.uint32)                                   # in the middle of the text
    z: FD.scalar(dtype=jnp.int8)


@xtructure_dataclass
class TokenWithATextOfItsOwnForPrinting:
    x: FD.scalar(dtype=jnp.uint32)

    def __str__(self, mark="x: ", **kwargs):
        return "%s%d" % (mark, int(self.x))


@xtructure_dataclass
class BoardWithATextOfSeveralLinesEach:
    x: FD.scalar(dtype=jnp.uint32)
    t: FD.tensor(dtype=jnp.int8, shape=(3,))

    def __str__(self, mark="x: ", **kwargs):
        return "+----+\n\033[1m%s%d\033[0m\n+----+" % (mark, int(self.x))


CLASSES = [TokenWithATextOfItsOwnForPrinting, BoardWithATextOfSeveralLinesEach, CounterWithoutAnyTextOfItsOwn, TripleOfFieldsWithOneThatCounts]


def build(cls, ids):
    ids = jnp.asarray(ids, jnp.uint32)
    kw = {"x": ids}
    for name, d in cls.default().__dict__.items():
        if name != "x":
            n = d.ndim
            kw[name] = jnp.broadcast_to((ids % 50).astype(d.dtype).reshape(ids.shape + (1,) * n), ids.shape + d.shape)
    return cls(**kw)


def parse(text, mark, by_id):
    """The cells of a printed batch, row by row: positions, -1 for a gap; how many cells show no known record."""
    lines = ANSI.sub("", text).split("\n")
    rows, foreign = [], 0
    for line in lines:
        if not line.startswith("│"):
            continue
        cells = re.findall(re.escape(mark) + r"(\d+)|(?<![.\w])(\.\.\.)(?![.\w])", line)
        if not cells:
            continue
        row = []
        for num, _ in cells:
            at = -1 if not num else by_id.get(int(num), -2)
            foreign += at == -2
            row.append(at)
        rows.append(row)
    head = lines[0] if lines else ""
    foot = [x for x in lines if x.startswith("╰")]
    m = re.search(r"shape: \(([\d, ]*)\)", foot[0] if foot else "")
    shape = [int(v) for v in re.findall(r"\d+", m.group(1))] if m else [-1]
    return rows, foreign, head, shape


def batches(rec, path, seed, part, parts):
    with open(path) as fh:
        shapes = [c["s"] for c in json.load(fh) if c["s"]][part::parts]
    rnd = random.Random(seed)
    rnd.shuffle(shapes)
    shapes.sort(key=lambda s: len(s) != 2 and rnd.random() < 0.5)
    big = [[5000], [70001], [300, 2], [2, 300], [300, 300], [3, 5, 700]]
    for n, s in enumerate(shapes[:10] + big[part::parts] + shapes[10:]):
        if rec.out_of_time():
            return
        size = int(np.prod(s))
        ids = (np.arange(size) * 7 + 100 + rnd.randrange(50)) if size < 10000 else np.arange(size) + rnd.randrange(9)
        cls = CLASSES[(n + part) % len(CLASSES)] if size else CLASSES[0]
        rec.reset(cls=cls.__name__, s=s)
        b = build(cls, ids.reshape(s))
        mark = "x: "
        kw = {}
        own = cls in CLASSES[:2]
        how = rnd.choice(["str", "method", "kwargs"]) if own else rnd.choice(["str", "method"])
        if how == "kwargs":
            mark = rnd.choice(["id=", "#"])
            kw = dict(mark=mark)
        rec.pending("print %s %s %s" % (cls.__name__, s, how))
        text, err = rec.call(lambda: str(b) if how == "str" else b.str(**kw))
        if err:
            rec.ev("batch", err=err, s=s)
            continue
        rows, foreign, head, shape = parse(text, mark, {int(v): i for i, v in enumerate(ids)})
        rec.ev("batch", err="", s=s, rows=rows, foreign=foreign, named=cls.__name__ in head, shape=shape, how=how,
               max=int(annotate.MAX_PRINT_BATCH_SIZE), half=int(annotate.SHOW_BATCH_SIZE))


def squeeze(text):
    return re.sub(r"\s+", "", ANSI.sub("", text))


def singles(rec, seed, rounds):
    """Single records of every class, and shapes that are no batch."""
    rnd = random.Random("show-%s" % seed)
    names = ["U32", "Mix", "Nest", "Packed", "Wide", "Tiny", "Scal", "Bits", "Deep", "Grid"]
    for n in range(rounds):
        if rec.out_of_time():
            return
        kind = zoo.kind(names[(n + seed) % len(names)], 64, seed % 5)
        x = kind.enc(np.int64(rnd.randrange(64)))
        cls = kind.cls
        rec.reset(cls=cls.__name__)
        rec.pending("print one %s" % cls.__name__)
        text, err = rec.call(lambda: str(x) if n % 2 else x.str())
        fields = list(cls.__dataclass_fields__)
        if err:
            rec.ev("single", err=err)
        else:
            flat = squeeze(text)
            pos, found, vals = 0, [], []
            for f in fields:
                at = flat.find(f + ":", pos)
                if at < 0:
                    continue
                found.append(f)
                want = squeeze(str(getattr(x, f)))
                vals.append(flat.startswith(f + ":" + want, at))
                pos = at + len(f) + 1 + len(want)
            rec.ev("single", err="", names=fields, found=found, vals=vals, named=flat.startswith(cls.__name__))
        k = rnd.randrange(1000)
        cls = CLASSES[n % 2]
        own = build(cls, k)
        mark = rnd.choice(["x: ", "<", "n"])
        text, err = rec.call(lambda: str(own) if mark == "x: " else own.str(mark=mark))
        if err:
            rec.ev("own", err=err)
        else:
            want = "%s%d" % (mark, k)
            rec.ev("own", err="", text=text, want=want if n % 2 == 0 else "+----+\n\033[1m%s\033[0m\n+----+" % want)
        bad = TripleOfFieldsWithOneThatCounts(y=jnp.zeros((rnd.choice([3, 4]), 2), jnp.uint8), x=jnp.zeros((2,), jnp.uint32), z=jnp.zeros((2,), jnp.int8))
        text, err = rec.call(lambda: str(bad))
        if err:
            rec.ev("unstructured", err=err)
        else:
            rec.ev("unstructured", err="", told="nstructured" in text, named=type(bad).__name__ in text)
