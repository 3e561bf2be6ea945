"""Histories over tensors of the compiled Python module, against plain numpy arrays."""
import copy
import ctypes
import gc
import itertools
import os
import pickle
import random as _random
import resource
import sys

import numpy as np
import TAT

import simcore
from simcore import choose, coin, count, data_rng, event, fail

lib = ctypes.CDLL(None)
for f in ("bm_live", "bm_bytes"):
    getattr(lib, f).restype = ctypes.c_long

KINDS = [k for k in ("DNo", "ZNo", "DZ2", "ZZ2", "DFermi", "ZFermi") if hasattr(TAT.Tensor, k)]
NAMES = ["A", "B", "C", "D", "E", "F", "G", "H"]
PATTERNS = [0x00, 0xcd, 0x7f, 0xff, 0x3f]


class Tired(Exception):
    """Raised by the caller's own functions."""


def symmetry(kind, v):
    return bool(v) if kind.endswith("Z2") else int(v)


class Model:
    """A tensor as plain data."""

    def __init__(self, kind, names, edges, blocks):
        self.kind, self.names, self.edges, self.blocks = kind, list(names), [(a, dict(m)) for a, m in edges], blocks

    @property
    def dtype(self):
        return np.complex128 if self.kind[0] == "Z" else np.float64

    def copy(self):
        return Model(self.kind, self.names, self.edges, {k: v.copy() for k, v in self.blocks.items()})

    def same_shape(self, other):
        return self.kind == other.kind and self.names == other.names and self.edges == other.edges

    def apply(self, f):
        return Model(self.kind, self.names, self.edges, {k: np.array(f(v), self.dtype) for k, v in self.blocks.items()})

    def combine(self, other, f):
        return Model(self.kind, self.names, self.edges, {k: np.array(f(v, other.blocks[k]), self.dtype) for k, v in self.blocks.items()})

    def size(self):
        return sum(v.size for v in self.blocks.values())

    def largest(self):
        return max([1.] + [float(abs(v).max()) for v in self.blocks.values() if v.size])


def keys_of(kind, edges):
    if kind.endswith("No"):
        return [(0,) * len(edges)]
    out = []
    for key in itertools.product(*[sorted(m) for _, m in edges]):
        total = sum(key)
        if (total % 2 if kind.endswith("Z2") else total) == 0:
            out.append(key)
    return out


def shape_of(edges, key):
    return tuple(m[k] for (_, m), k in zip(edges, key))


def make_edges(r, kind, rank):
    edges = []
    for _ in range(rank):
        if kind.endswith("No"):
            edges.append((False, {0: r.randint(1, 3)}))
        elif kind.endswith("Z2"):
            edges.append((False, {s: r.randint(1, 2) for s in r.choice([[0, 1], [0, 1], [0], [1]])}))
        else:
            edges.append((r.random() < .5, {s: r.randint(1, 2) for s in r.choice([[-1, 0, 1], [0, 1], [0], [-1, 1], [0, -1]])}))
    return edges


def edge_arguments(kind, edges):
    if kind.endswith("No"):
        return [m[0] for _, m in edges]
    if kind.endswith("Z2"):
        return [{bool(s): d for s, d in m.items()} for _, m in edges]
    return [(a, dict(m)) for a, m in edges]


def number(r, kind):
    x = r.choice([0., 1., -1., 2.]) if r.random() < .2 else r.gauss(0, 1)
    return complex(x, r.gauss(0, 1)) if kind[0] == "Z" else x


def point(m, key, index):
    """Where an element is, as the module wants it."""
    if m.kind.endswith("No"):
        return {n: i for n, i in zip(m.names, index)}
    return {n: (symmetry(m.kind, s), i) for n, s, i in zip(m.names, key, index)}


def read(obj, m):
    """All elements one by one: does not make the tensor stop sharing its data."""
    out = {}
    for key, block in m.blocks.items():
        x = np.empty(block.shape, m.dtype)
        for index in np.ndindex(*block.shape):
            x[index] = obj[point(m, key, index)]
        out[key] = x
    return out


def shape_matches(obj, m):
    if [str(n) for n in obj.name] != m.names:
        return "names are %s instead of %s" % ([str(n) for n in obj.name], m.names)
    edges = obj.edge
    if len(edges) != len(m.edges):
        return "%d edges instead of %d" % (len(edges), len(m.edges))
    for e, (arrow, want) in zip(edges, m.edges):
        bad = edge_differs(e, m.kind, arrow, want)
        if bad:
            return bad
    return ""


def plain_edge(e, kind):
    if kind.endswith("No"):
        return {0: int(str(e))}
    if kind.endswith("Z2"):
        return {int(s.z2): d for s, d in e.map.items()}
    return {int(s.fermi): d for s, d in e.map.items()}


def edge_differs(e, kind, arrow, want):
    got = plain_edge(e, kind)
    if got != want:
        return "an edge is %s instead of %s" % (got, want)
    if kind.endswith("Fermi") and bool(e.arrow) != bool(arrow):
        return "an edge has the wrong arrow"
    return ""


class Handle:
    def __init__(self, obj, model):
        self.obj, self.model, self.views = obj, model, []


class World:
    def __init__(self):
        self.handles = []
        self.kept = []  # edges and names taken from tensors, with what they have to say
        self.blocks = []  # block accessors kept for later
        self.r = data_rng("data")

    # ---- checks

    def check(self, h, why):
        bad = shape_matches(h.obj, h.model)
        if bad:
            fail("value", "%s: %s" % (why, bad))
        scale = h.model.largest()
        got = read(h.obj, h.model)
        for key, want in h.model.blocks.items():
            if not np.all(abs(got[key] - want) <= 1e-11 * scale):
                fail("value", "%s: block %s is %s instead of %s" % (why, key, got[key].tolist(), want.tolist()))
        for view, key, order in h.views:
            want = h.model.blocks[key].transpose([h.model.names.index(n) for n in order])
            if view.shape != want.shape or not np.all(abs(view - want) <= 1e-11 * scale):
                fail("view", "%s: the view %s of block %s shows %s instead of %s" % (why, order, key, view.tolist(), want.tolist()))

    def check_all(self, why):
        for h in self.handles:
            self.check(h, why)
        for what, kind, want in self.kept:
            if kind is None:
                if [str(n) for n in what] != want:
                    fail("value", "%s: names kept from a tensor became %s instead of %s" % (why, [str(n) for n in what], want))
            else:
                for e, (arrow, m) in zip(what, want):
                    bad = edge_differs(e, kind, arrow, m)
                    if bad:
                        fail("value", "%s: of the edges kept from a tensor, %s" % (why, bad))

    # ---- doing things

    def attempt(self, what, f):
        lib.bm_fill(PATTERNS[choose(5, "fresh memory")])
        event(what)
        return f()

    def pick(self):
        return self.handles[choose(len(self.handles), "tensor")]

    def add(self, obj, model):
        h = Handle(obj, model)
        if len(self.handles) >= 6:
            self.handles[choose(len(self.handles), "replaced")] = h
        else:
            self.handles.append(h)
        return h

    def names(self, rank):
        v = NAMES[:]
        self.r.shuffle(v)
        return v[:rank]

    def fresh_model(self, kind=None):
        r = self.r
        kind = kind or KINDS[choose(len(KINDS), "kind")]
        rank = r.choice([0, 1, 2, 2, 3, 3])
        while True:
            edges = make_edges(r, kind, rank)
            keys = keys_of(kind, edges)
            # sectors without any block are not kept
            edges = [(a, {s: d for s, d in e.items() if any(k[i] == s for k in keys)}) for i, (a, e) in enumerate(edges)]
            m = Model(kind, self.names(rank), edges, {})
            for key in keys:
                m.blocks[key] = np.array([number(r, kind) for _ in range(int(np.prod(shape_of(edges, key))))], m.dtype).reshape(shape_of(edges, key))
            if m.size():
                return m

    def build(self, m):
        """The tensor of a model, its elements set in one of the ways there are."""
        t = getattr(TAT.Tensor, m.kind)(m.names, edge_arguments(m.kind, m.edges))
        self.write(t, m, choose(3, "filled by"))
        return t

    def write(self, t, m, way):
        if way == 0:
            for key, block in m.blocks.items():
                for index in np.ndindex(*block.shape):
                    t[point(m, key, index)] = block[index]
        elif way == 1:
            for key, block in m.blocks.items():
                order = list(range(len(m.names)))
                self.r.shuffle(order)
                t.block[self.position(m, key, order)] = block.transpose(order)
        else:
            # in the order of the blocks
            values = iter([x for key in sorted(m.blocks) for x in m.blocks[key].reshape(-1)])
            t.set(lambda: next(values))

    def position(self, m, key, order=None):
        if order is None:
            return {n: TAT._internal.Symmetry.No() if m.kind.endswith("No") else symmetry(m.kind, s) for n, s in zip(m.names, key)}
        if m.kind.endswith("No") and coin(1, 2, "names only"):
            return [m.names[i] for i in order]
        if m.kind.endswith("No"):
            return [(m.names[i], TAT._internal.Symmetry.No()) for i in order]
        return [(m.names[i], symmetry(m.kind, key[i])) for i in order]

    # ---- actions

    def create(self):
        m = self.fresh_model()
        t = self.attempt("create", lambda: self.build(m))
        self.check(self.add(t, m), "a new tensor")

    def derive(self):
        """Another tensor of the same value."""
        h = self.pick()
        m = h.model
        way = choose(6, "derived by")
        if way == 0:
            t = self.attempt("copy", lambda: h.obj.copy())
        elif way == 1:
            t = self.attempt("copy module", lambda: (copy.copy if coin(1, 2, "shallow") else copy.deepcopy)(h.obj))
        elif way == 2:
            t = self.attempt("pickle", lambda: pickle.loads(pickle.dumps(h.obj)))
        elif way == 3:
            t = self.attempt("dump and load", lambda: getattr(TAT.Tensor, m.kind)().load(h.obj.dump()))
        else:
            del h.views[:]  # the data is shared from here on
            new = [n for n in NAMES if n not in m.names][:1]
            rename = {m.names[0]: new[0]} if m.names and coin(1, 2, "renamed") else {}
            t = self.attempt("rename", lambda: h.obj.edge_rename(rename))
            m = m.copy()
            m.names = [rename.get(n, n) for n in m.names]
        self.add(t, m.copy())

    def inplace(self):
        h = self.pick()
        x = h.obj
        if h.model.largest() > 1e4:
            way = 5
        else:
            way = choose(8, "changed by")
        op = choose(4, "operator")
        if way < 2:
            s = number(self.r, h.model.kind) or 1.
            if op == 3 and abs(s) < .1:
                s = 2.

            def act():
                t = x
                if op == 0:
                    t += s
                elif op == 1:
                    t -= s
                elif op == 2:
                    t *= s
                else:
                    t /= s
                return t

            t = self.attempt("in place with a number", act)
            want = h.model.apply(lambda v: v + s if op == 0 else v - s if op == 1 else v * s if op == 2 else v / s)
        elif way < 4:
            others = [o for o in self.handles if o.model.kind == h.model.kind and sorted(o.model.names) == sorted(h.model.names) and all(
                o.model.edges[o.model.names.index(n)] == e for n, e in zip(h.model.names, h.model.edges))]
            if h.model.kind.endswith("Fermi"):
                others = [o for o in others if o.model.names == h.model.names]  # turning edges around has signs
            o = others[choose(len(others), "other tensor")]
            if op == 3:
                op = 2

            def act():
                t = x
                if op == 0:
                    t += o.obj
                elif op == 1:
                    t -= o.obj
                else:
                    t *= o.obj
                return t

            if o is not h:
                del o.views[:]
            t = self.attempt("in place with a tensor", act)
            turn = [o.model.names.index(n) for n in h.model.names]
            blocks = {tuple(k[i] for i in turn): v.transpose(turn) for k, v in o.model.blocks.items()}
            want = h.model.combine(Model(h.model.kind, h.model.names, h.model.edges, blocks), lambda a, b: a + b if op == 0 else a - b if op == 1 else a * b)
        elif way == 4:
            s = number(self.r, h.model.kind)
            t = self.attempt("transform", lambda: x.transform(lambda v: v * .5 + s))
            want = h.model.apply(lambda v: v * .5 + s)
        elif way == 5:
            t = self.attempt("zero", lambda: x.zero())
            want = h.model.apply(lambda v: v * 0)
        elif way == 6:
            first, step = number(self.r, h.model.kind), number(self.r, h.model.kind)
            t = self.attempt("test", lambda: x.test(first, step))
            want = h.model.copy()
            now = first
            for key in sorted(want.blocks):
                flat = want.blocks[key].reshape(-1)
                for i in range(flat.size):
                    flat[i] = now
                    now = now + step
        else:
            s = self.r.randrange(1 << 30)
            normal = choose(2, "distribution")
            TAT.random.seed(s)
            t = self.attempt("random numbers", lambda: x.randn() if normal else x.rand())
            other = x.copy()
            TAT.random.seed(s)
            other.randn() if normal else other.rand()
            want = h.model.copy()
            want.blocks = read(other, want)
            if not normal:
                for v in want.blocks.values():
                    if v.size and not (v.real.min() >= 0 and v.real.max() <= 1 and v.imag.min() >= 0 and v.imag.max() <= 1):
                        fail("value", "random numbers outside their range")
        if t is not x:
            fail("value", "changing a tensor in place gave another object")
        h.model = want
        self.check(h, "after a change in place")

    def arithmetic(self):
        h = self.pick()
        m = h.model
        if m.largest() > 1e4:
            return
        op = choose(4, "operator")
        del h.views[:]
        if coin(1, 2, "with a number"):
            s = number(self.r, m.kind) or 1.
            left = coin(1, 2, "number first")
            if left and (op == 3 and any(abs(v).min() < 1e-3 for v in m.blocks.values() if v.size)):
                op = 0
            if op == 3 and abs(s) < .1:
                s = 2.
            f = [lambda a, b: a + b, lambda a, b: a - b, lambda a, b: a * b, lambda a, b: a / b][op]
            t = self.attempt("arithmetic with a number", lambda: f(s, h.obj) if left else f(h.obj, s))
            want = m.apply(lambda v: f(s, v) if left else f(v, s))
        else:
            others = [o for o in self.handles if o.model.same_shape(m)]
            o = others[choose(len(others), "other tensor")]
            del o.views[:]
            op = op % 3
            f = [lambda a, b: a + b, lambda a, b: a - b, lambda a, b: a * b][op]
            t = self.attempt("arithmetic", lambda: f(h.obj, o.obj))
            want = m.combine(o.model, f)
        self.check(self.add(t, want), "after arithmetic")

    def element(self):
        h = self.pick()
        m = h.model
        key = self.r.choice([k for k, v in m.blocks.items() if v.size])
        index = tuple(self.r.randrange(d) for d in m.blocks[key].shape)
        p = point(m, key, index)
        v = number(self.r, m.kind)
        if coin(1, 3, "read"):
            got = self.attempt("read an element", lambda: h.obj[p])
            if abs(got - m.blocks[key][index]) > 1e-11 * m.largest():
                fail("value", "an element is %r instead of %r" % (got, m.blocks[key][index]))
            return

        def act():
            h.obj[p] = v

        self.attempt("write an element", act)
        m.blocks[key][index] = v
        self.check(h, "after an element was written")

    def some_block(self, h):
        m = h.model
        key = self.r.choice([k for k, v in m.blocks.items() if v.size])
        order = list(range(len(m.names)))
        unordered = coin(1, 3, "unordered")
        if not unordered:
            self.r.shuffle(order)
        return key, order, self.position(m, key, None if unordered else order)

    def assign_block(self):
        h = self.pick()
        m = h.model
        key, order, where = self.some_block(h)
        shape = tuple(m.blocks[key].shape[i] for i in order)
        values = np.array([number(self.r, m.kind) for _ in range(int(np.prod(shape)))], m.dtype).reshape(shape)
        way = choose(4, "assigned")
        given = values
        if way == 1:
            given = np.asfortranarray(values)
        elif way == 2:
            given = values.tolist()
        elif way == 3:
            given = number(self.r, m.kind)
            values = np.full(shape, given, m.dtype)
        source = h.obj.block if coin(1, 2, "fresh accessor") or not any(o is h.obj for o, _ in self.blocks) else [b for o, b in self.blocks if o is h.obj][0]

        def act():
            source[where] = given

        self.attempt("assign a block", act)
        m.blocks[key] = values.transpose(np.argsort(order)) if order else values
        self.check(h, "after a block was assigned")

    def view(self):
        h = self.pick()
        m = h.model
        way = choose(3, "view")
        if not m.names:
            return  # a number has no view
        if way == 0 or not h.views:
            key, order, where = self.some_block(h)
            temporary = coin(1, 4, "of a temporary")
            if temporary:
                # a view of a tensor nobody else knows keeps it alive
                v = self.attempt("view", lambda: h.obj.copy().block[where])
                gc.collect()
                junk = [getattr(TAT.Tensor, m.kind)(m.names, edge_arguments(m.kind, m.edges)).zero() for _ in range(3)]
                want = m.blocks[key].transpose(order)
                if v.shape != want.shape or not np.all(abs(v - want) <= 1e-11 * m.largest()):
                    fail("view", "a view of a dropped tensor shows %s instead of %s" % (v.tolist(), want.tolist()))
                v[...] = 7
                del junk
            else:
                v = self.attempt("view", lambda: h.obj.block[where])
                if not isinstance(v, np.ndarray):
                    fail("view", "a block is no array")
                h.views.append((v, key, [m.names[i] for i in order]))
                if coin(1, 3, "accessor kept"):
                    self.blocks.append((h.obj, h.obj.block))
                count("views")
        elif way == 1:
            v, key, order = h.views[choose(len(h.views), "which view")]
            value = number(self.r, m.kind)
            index = tuple(self.r.randrange(d) for d in v.shape)
            v[index] = value
            back = [0] * len(index)
            for i, n in enumerate(order):
                back[m.names.index(n)] = index[i]
            m.blocks[key][tuple(back)] = value
            event("wrote through a view")
        else:
            h.views.pop(choose(len(h.views), "which view"))
        self.check(h, "after a view was used")

    def keep(self):
        h = self.pick()
        if coin(1, 2, "names"):
            self.kept.append((self.attempt("names", lambda: h.obj.name), None, list(h.model.names)))
        else:
            self.kept.append((self.attempt("edges", lambda: h.obj.edge), h.model.kind, [(a, dict(e)) for a, e in h.model.edges]))

    def structure(self):
        h = self.pick()
        m = h.model
        rank = len(m.names)
        way = choose(12, "structure")
        del h.views[:]
        if way == 0 and not m.kind.endswith("Fermi"):
            order = list(range(rank))
            self.r.shuffle(order)
            t = self.attempt("transpose", lambda: h.obj.transpose([m.names[i] for i in order]))
            want = Model(m.kind, [m.names[i] for i in order], [m.edges[i] for i in order], {tuple(k[i] for i in order): v.transpose(order).copy() for k, v in m.blocks.items()})
        elif way == 1 and m.kind[0] == "D":
            t = self.attempt("convert", lambda: h.obj.to("complex"))
            want = m.copy()
            want.kind = "Z" + m.kind[1:]
            want.blocks = {k: np.array(v, np.complex128) for k, v in m.blocks.items()}
        elif way == 2:
            t = self.attempt("map", lambda: h.obj.map(lambda v: v * 2))
            want = m.apply(lambda v: v * 2)
            if m.largest() > 1e4:
                return
        elif way == 3 and m.kind == "DNo":
            t = self.attempt("conjugate", lambda: h.obj.conjugate())
            want = m.copy()
        elif way == 4 and m.kind.endswith("No") and rank:
            # with a partner over one edge
            o = self.pick()
            if o.model.kind != m.kind or not o.model.names or m.largest() * o.model.largest() > 1e4:
                return
            pairs = [(a, b) for a in range(rank) for b in range(len(o.model.names)) if m.edges[a] == o.model.edges[b]]
            if not pairs:
                return
            a, b = self.r.choice(pairs)
            rest = [n for i, n in enumerate(m.names) if i != a]
            if len(rest) + len(o.model.names) - 1 > 4:
                return
            fresh = iter([n for n in NAMES + ["I", "J"] if n not in rest])
            rename = {}
            for i, n in enumerate(o.model.names):
                if i != b:
                    rename[n] = next(fresh)
            rename[o.model.names[b]] = "K"
            del o.views[:]
            t = self.attempt("contract", lambda: h.obj.contract(o.obj.edge_rename(rename), {(m.names[a], "K")}))
            want = Model(m.kind, rest + [rename[n] for i, n in enumerate(o.model.names) if i != b],
                         [e for i, e in enumerate(m.edges) if i != a] + [e for i, e in enumerate(o.model.edges) if i != b],
                         {})
            block = np.tensordot(m.blocks[(0,) * rank], o.model.blocks[(0,) * len(o.model.names)], ([a], [b]))
            block = np.array(block)
            want.blocks[(0,) * len(want.names)] = block
            got = [str(n) for n in t.name]
            if sorted(got) != sorted(want.names):
                fail("value", "a contraction has edges %s instead of %s" % (got, want.names))
            order = [want.names.index(n) for n in got]
            want = Model(m.kind, got, [want.edges[i] for i in order], {(0,) * len(got): block.transpose(order).copy()})
        elif way == 5 and m.kind.endswith("No") and rank >= 2:
            free = set(m.names[:1 + self.r.randrange(rank - 1)])
            u, s, v = self.attempt("svd", lambda: h.obj.svd(free, "S1", "S2"))
            first, second = s.name
            back = u.contract(s, {("S1", first)}).contract(v, {(second, "S2")})
            got = [str(n) for n in back.name]
            if sorted(got) != sorted(m.names):
                fail("value", "the factors do not join to the tensor: %s" % got)
            t = back.transpose(m.names)
            want = m.copy()
            for k, x in read(t, want).items():
                if not np.all(abs(x - want.blocks[k]) <= 1e-9 * m.largest()):
                    fail("value", "the factors of a tensor multiply to %s instead of %s" % (x.tolist(), want.blocks[k].tolist()))
            want.blocks = read(t, want)
        elif way == 6:
            # the printed form of whole numbers
            whole = m.apply(lambda v: np.round(v.real * 10) if m.kind[0] == "D" else np.round(v.real * 10) + 1j * np.round(v.imag * 10))
            if m.largest() > 1e3:
                return
            x = h.obj.same_shape()
            self.write(x, whole, 0)
            text = str(x)
            t = self.attempt("from text", lambda: type(h.obj)(text))
            want = whole
            if coin(1, 2, "cut"):
                end = text.rindex("}") if "}" in text else len(text)
                cut = text[:self.r.randrange(end)]  # the very last brace says nothing
                try:
                    type(h.obj)(cut)
                except Exception as e:
                    event("refused")
                else:
                    fail("value", "incomplete text %r was taken for a tensor" % cut)
                count("fault.cut_text")
        elif way == 7 and m.kind.endswith("No") and rank >= 2:
            # joined and taken apart again
            chosen = m.names[:]
            self.r.shuffle(chosen)
            chosen = chosen[:self.r.randint(2, rank)]
            joined = self.attempt("merge", lambda: h.obj.merge_edge({"J": chosen}))
            apart = self.attempt("split", lambda: joined.split_edge({"J": [(n, m.edges[m.names.index(n)][1][0]) for n in chosen]}))
            t = apart.transpose(m.names)
            want = m.copy()
        elif way == 8 and m.kind.endswith("No") and rank >= 2:
            free = set(m.names[:1 + self.r.randrange(rank - 1)])
            side = "rqRQ"[self.r.randrange(4)]
            q, r = self.attempt("qr", lambda: h.obj.qr(side, free, "S1", "S2"))
            t = q.contract(r, {("S1", "S2")}).transpose(m.names)
            want = m.copy()
            for k, x in read(t, want).items():
                if not np.all(abs(x - want.blocks[k]) <= 1e-9 * m.largest()):
                    fail("value", "the factors of a tensor multiply to %s instead of %s" % (x.tolist(), want.blocks[k].tolist()))
            want.blocks = read(t, want)
        elif way == 9:
            size = m.size()
            everything = np.concatenate([v.reshape(-1) for v in m.blocks.values()])
            for name, want in (("norm_max", abs(everything).max()), ("norm_num", size), ("norm_sum", abs(everything).sum()), ("norm_2", np.sqrt((abs(everything)**2).sum()))):
                got = self.attempt(name, lambda: getattr(h.obj, name)())
                if abs(got - want) > 1e-9 * max(1., want):
                    fail("value", "%s is %r instead of %r" % (name, got, want))
            return
        elif way == 10 and m.kind.endswith("No") and rank >= 1:
            # a fixed index, and the same put back
            n = self.r.choice(m.names)
            i = m.names.index(n)
            d = m.edges[i][1][0]
            x = self.r.randrange(d)
            t = self.attempt("shrink", lambda: h.obj.shrink({n: x}))
            want = Model(m.kind, [v for v in m.names if v != n], [e for j, e in enumerate(m.edges) if j != i],
                         {(0,) * (rank - 1): np.array(m.blocks[(0,) * rank].take(x, i))})
            if coin(1, 2, "put back"):
                t = self.attempt("expand", lambda: t.expand({n: (x, d)})).transpose(m.names)
                block = np.zeros(m.blocks[(0,) * rank].shape, m.dtype)
                block[(slice(None),) * i + (x,)] = m.blocks[(0,) * rank].take(x, i)
                want = Model(m.kind, m.names, m.edges, {(0,) * rank: block})
        elif way == 11:
            t = self.attempt("same shape", lambda: h.obj.same_shape().zero())
            want = m.apply(lambda v: v * 0)
        else:
            return
        self.check(self.add(t, want), "after a structural operation")

    def give_up(self):
        """The caller's own function raises half way: only the tensor being changed may be affected."""
        h = self.pick()
        left = [choose(6, "calls before")]

        def f(*_):
            if left[0] == 0:
                raise Tired()
            left[0] -= 1
            return 3.

        way = choose(3, "given up")
        try:
            [h.obj.transform, h.obj.set, h.obj.map][way](f)
            changed = True
        except Tired:
            changed = False
        event("given up")
        if way == 2:
            self.check(h, "after a function gave up")
            return
        got = read(h.obj, h.model)
        for key, v in h.model.blocks.items():
            ok = (abs(got[key] - v) <= 1e-11 * h.model.largest()) | (got[key] == 3.)
            if not np.all(ok) or (changed and not np.all(got[key] == 3.)):
                fail("value", "after a function gave up a block holds %s, before it was %s" % (got[key].tolist(), v.tolist()))
        h.model.blocks = got
        count("fault.function_raised")

    def wrong(self):
        """Requests that make no sense are refused, change nothing and keep nothing alive."""
        h = self.pick()
        m = h.model
        names = sys.getrefcount(h.obj)
        way = choose(7, "wrong")
        key, order, where = self.some_block(h)
        try:
            if way == 0:
                h.obj.block[["A", "B", "C", "D", "E", "F"]]
            elif way == 1 and len(m.names) > 1:
                h.obj.block[self.position(m, key, order)[:-1]]
            elif way == 2 and len(m.names) > 1:
                p = self.position(m, key, order)
                h.obj.block[[p[0]] * len(p)]
            elif way == 3 and not m.kind.endswith("No") and len(m.names) > 0:
                h.obj.block[{n: symmetry(m.kind, 1 if i == 0 else 0) for i, n in enumerate(m.names)}]
            elif way == 4:
                h.obj.block[where] = np.zeros([7] * (len(m.names) + 1), m.dtype)
            elif way == 5:
                type(h.obj)().load(h.obj.dump()[:-1 - self.r.randrange(4)])
            elif way == 6 and len(m.names) > 0:
                h.obj[{}]
            else:
                return
        except Exception as e:
            event("refused")
        else:
            fail("refused", "a wrong request (%d) was not refused" % way)
        gc.collect()
        if sys.getrefcount(h.obj) != names:
            fail("leak", "a refused request keeps the tensor alive")
        count("fault.wrong_request")
        self.check(h, "after a refused request")

    def replace(self):
        """Other content for the same object."""
        h = self.pick()
        m = self.fresh_model(h.model.kind)
        data = self.build(m).dump()
        del h.views[:]
        t = self.attempt("load", lambda: h.obj.load(data))
        if t is not h.obj:
            fail("value", "loading gave another object")
        h.model = m
        self.check(h, "after loading")

    def drop(self):
        if len(self.handles) > 1:
            gone = self.handles.pop(choose(len(self.handles), "dropped"))
            if coin(1, 3, "in a cycle"):
                ring = [gone]
                ring.append(ring)
                del ring
        if self.kept and coin(1, 3, "kept parts dropped"):
            self.kept.pop(choose(len(self.kept), "which"))
        if coin(1, 2, "collect"):
            gc.collect()
            event("collected")


def b01(steps=None):
    lib.bm_config(PATTERNS[choose(5, "fresh memory")], choose(3, "heap"))
    w = World()
    start = lib.bm_live()
    actions = [w.create, w.derive, w.derive, w.derive, w.inplace, w.inplace, w.inplace, w.arithmetic, w.element, w.element, w.assign_block, w.view, w.view, w.view, w.keep, w.structure, w.structure,
               w.give_up, w.wrong, w.replace, w.drop]
    w.create()
    for _ in range(4 + choose(18, "steps")):
        actions[choose(len(actions), "action")]()
        if coin(1, 3, "look at everything"):
            w.check_all("some time later")
    w.check_all("at the end")
    state = lib.bm_check()
    if state:
        fail("memory", "released memory was written to")
    # nothing stays behind once everything is dropped
    del w.handles[:], w.kept[:], w.blocks[:]
    gc.collect()
    left = lib.bm_live() - start
    if left > 0:
        fail("leak", "%d objects stay behind" % left)
    simcore.run.nontrivial = True


def run(scenario):
    globals()[scenario]()


def warm():
    for i in range(60):
        simcore.run = simcore.Run(i)
        try:
            b01()
        except Exception:
            pass


def prepare():
    """Everything that is set up once and stays: names and whatever the binding layer remembers."""
    for n in NAMES + ["I", "J", "K", "S1", "S2"]:
        TAT.Name(n)
    sys.stderr.flush()
    errors = os.dup(2)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 2)  # the library talks a lot
    pid = os.fork()
    if pid == 0:
        resource.setrlimit(resource.RLIMIT_CPU, (10, 12))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        warm()
        os._exit(0)
    if os.waitpid(pid, 0)[1] == 0:  # otherwise the runs will tell
        warm()
    gc.collect()
    os.dup2(errors, 2)
