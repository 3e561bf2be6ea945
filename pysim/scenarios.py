"""p01: answers from caches after any history; p02: measurements and copies, whatever happened before."""
import contextlib, gc, io, re, string

import numpy as np

import simcore
from simcore import choose, coin, count, data_rng, event, fail

import TAT
import square
from square import SquareAuxiliariesSystem, SamplingGradientLattice, SimpleUpdateLattice, ExactLattice
from square.sampling_gradient_lattice import SpinConfiguration

Tensor = TAT.Tensor.DNo


def run(scenario):
    simcore.run.reuse = coin(3, 4, "addresses of dead tensors are used again")
    {"p01": p01, "p02": lambda: p02([0, 1, 2, 3, 4, 5, 8, 8]), "p02s": p02s, "p03": lambda: p02([4, 5, 6, 6, 7, 7, 7, 9], [(2, 3), (3, 2)])}[scenario]()
    simcore.run.nontrivial = True


def guarded(what, faults, function):
    """True if the action happened, False if memory ran out in it."""
    armed = faults and coin(1, 4, "fault")
    if armed:
        simcore.arm(1 + choose(60, "failing allocation"), coin(1, 3, "memory stays full"))
    try:
        function()
        done = True
    except MemoryError:
        done = False
    fired = simcore.disarm()
    if not done and not fired:
        fail("spurious-failure", "%s reported lack of memory although none was lacking" % what)
    return done


def collect():
    if coin(1, 3, "collect garbage"):
        gc.collect()
        count("garbage collections")


# ---------------------------------------------------------------- independent contraction of a network

def legs(M, N, i, j):
    result = {}
    if i != 0:
        result["U"] = ("v", i - 1, j)
    if j != 0:
        result["L"] = ("h", i, j - 1)
    if i != M - 1:
        result["D"] = ("v", i, j)
    if j != N - 1:
        result["R"] = ("h", i, j)
    return result


def contract_network(M, N, sites):
    """sites: position -> (names, array); positions left out stay open. Returns (labels, array)."""
    labels, value = [], np.array(1.0)
    for i in range(M):
        for j in range(N):
            if (i, j) not in sites:
                continue
            names, array = sites[i, j]
            mine = [legs(M, N, i, j).get(n, (n, i, j)) for n in names]
            common = [x for x in mine if x in labels]
            value = np.tensordot(value, array, ([labels.index(x) for x in common], [mine.index(x) for x in common]))
            labels = [x for x in labels if x not in common] + [x for x in mine if x not in common]
    return labels, value


def hole_labels(M, N, positions):
    """What the answer calls its edges, and the bonds they stand for."""
    result = {}
    inner = [b for p in positions for b in legs(M, N, *p).values()]
    for k, p in enumerate(positions):
        for n, b in legs(M, N, *p).items():
            if inner.count(b) == 1:
                result["%s%d" % (n, k)] = b
    return result


def compare(what, got, M, N, sites, positions, exact, fresh):
    if not isinstance(got, TAT._Base):
        fail("wrong-kind", "%s is not a tensor but %s" % (what, type(got).__name__))
    names = hole_labels(M, N, positions)
    if sorted(got._names) != sorted(names):
        fail("names", "%s has the edges %s instead of %s" % (what, sorted(got._names), sorted(names)))
    order = sorted(names)
    data = got._data.transpose([got._names.index(n) for n in order])
    if exact:
        labels, value = contract_network(M, N, {p: s for p, s in sites.items() if p not in positions})
        want = value.transpose([labels.index(names[n]) for n in order])
    else:
        other = fresh()
        want = other._data.transpose([other._names.index(n) for n in order])
    scale = 1.0
    for p, (_, a) in sites.items():
        scale *= max(1e-3, float(np.linalg.norm(a)))
    if data.shape != want.shape or not np.all(np.abs(data - want) <= 1e-9 * scale):
        fail("stale", "%s differs from %s" % (what, "the exact contraction" if exact else "that of a lattice built from scratch"))


# ---------------------------------------------------------------- p01

class Entry:
    """One system under test and what it should contain."""

    def __init__(self, obj, M, N, Dc, exact):
        self.obj, self.M, self.N, self.Dc, self.exact = obj, M, N, Dc, exact
        self.sites = {}      # position -> (names, array): what is set
        self.owner = None    # lattice of spins: position -> (names, array)
        self.held = {}       # position -> tensor object, plain systems
        self.lattice = None
        self.spins = {}      # lattice of spins: position -> spin, what is set

    def clone(self, obj):
        e = Entry(obj, self.M, self.N, self.Dc, self.exact)
        e.sites, e.held, e.owner, e.lattice = dict(self.sites), dict(self.held), self.owner, self.lattice
        e.spins = dict(self.spins)
        return e

    def fresh(self):
        """A system that holds the same and has no history."""
        if self.owner is not None:
            s = SpinConfiguration(self.lattice)
            for p, spin in self.spins.items():
                s[p] = spin
            return s
        s = SquareAuxiliariesSystem(self.M, self.N, self.Dc)
        for (i, j), (names, array) in self.sites.items():
            s[i, j] = Tensor._make(names, array)
        return s


def random_tensor(r, names, dims):
    t = Tensor(names, dims)
    style = r.randrange(6)
    size = int(np.prod(dims)) if dims else 1
    values = [float(r.randrange(-2, 3)) if style == 0 else r.gauss(0, 1) for _ in range(size)]
    t.block[{}] = np.array(values).reshape(dims)
    return t


def random_neighbours(M, N):
    pairs = [((i, j), (i, j + 1)) for i in range(M) for j in range(N - 1)] + [((i, j), (i + 1, j)) for i in range(M - 1) for j in range(N)]
    if not pairs:
        return None
    a, b = pairs[choose(len(pairs), "bond")]
    return [b, a] if coin(1, 2, "backwards") else [a, b]


def site_names(M, N, i, j):
    return list(legs(M, N, i, j))


def ask(e, faults, label):
    M, N = e.M, e.N
    kind = choose(5, "question")
    here = (choose(M, "row"), choose(N, "column"))
    complete = len(e.sites) == M * N
    positions, replacement, sites = [], None, e.sites
    if kind == 1:
        positions = [here]
    elif kind == 2:
        positions = random_neighbours(M, N) or [here]
    elif kind >= 3:
        chosen = [here] if kind == 3 else (random_neighbours(M, N) or [here])
        replacement, sites = {}, dict(e.sites)
        r = data_rng("replacement")
        for p in chosen:
            if e.owner is not None:
                spin = r.randrange(e.d)
                replacement[p] = spin
                names, array = e.owner[p]
                sites[p] = shrunk(names, array, spin)
            else:
                names = site_names(M, N, *p)
                t = random_tensor(r, names, [e.D] * len(names))
                replacement[p] = t
                sites[p] = (list(t._names), t._data.copy())
    needed = {(i, j) for i in range(M) for j in range(N)} - set(positions)
    if e.owner is None and replacement is not None:
        needed -= set(replacement)
    if not needed <= set(e.sites):
        count("incomplete")
        # a question that cannot be answered yet must not spoil later answers
        try:
            e.obj[question(kind, positions, replacement)]
        except MemoryError:
            raise
        except Exception:
            return
        return
    what = {0: "the contraction", 1: "one hole", 2: "two holes", 3: "one replacement", 4: "two replacements"}[kind]
    box = []

    def act():
        box.append(e.obj[question(kind, positions, replacement)])

    event("ask %s %s %s" % (label, what, positions or (sorted(replacement) if replacement else "")))
    if guarded(what, faults, act):
        compare(what + " of " + label, box[0], M, N, sites, positions, e.exact, lambda: e.fresh()[question(kind, positions, replacement)])
        count("answers")


def question(kind, positions, replacement):
    if replacement is not None:
        return replacement
    if kind == 0 and coin(1, 4, "empty tuple"):
        return None
    return None if kind == 0 else tuple(positions)


def shrunk(names, array, spin):
    axis = names.index("P")
    return [n for n in names if n != "P"], array.take(spin, axis)


def p01():
    r = data_rng("data")
    simcore.run.data = r
    M, N = 1 + choose(4, "M"), 1 + choose(4, "N")
    if M * N > 12:
        N = 3
    D = 1 + choose(2, "D") if M * N > 6 else 1 + choose(3, "D")
    exact = coin(1, 2, "nothing is cut")
    Dc = 1000 if exact else 1 + choose(4, "cut")
    d = 2 + choose(2, "d")
    faults = coin(1, 2, "faults")
    spins = coin(1, 2, "spins")
    entries = []

    def note(lattice):
        return {(i, j): (list(lattice[i, j]._names), lattice[i, j]._data.copy()) for i in range(M) for j in range(N)}

    def plain():
        e = Entry(SquareAuxiliariesSystem(M, N, Dc), M, N, Dc, exact)
        e.D = D
        return e

    def entry_of(spin, lattice, owner):
        e = Entry(spin, M, N, Dc, exact)
        e.D, e.d, e.owner, e.lattice = D, d, owner, lattice
        return e

    def set_site(e, p, label):
        if e.owner is not None:
            spin = r.randrange(d)
            old = e.obj.configuration[p[0]][p[1]]

            def act():
                e.obj[p] = spin

            event("%s spin %s = %d" % (label, p, spin))
            if guarded("setting a spin", faults, act):
                e.sites[p] = shrunk(*e.owner[p], spin)
                e.spins[p] = spin
                if e.obj.configuration[p[0]][p[1]] != spin:
                    fail("configuration", "a spin that was set is not recorded")
            elif e.obj.configuration[p[0]][p[1]] != old:
                fail("configuration", "a spin that could not be set changed its recorded value")
        else:
            names = site_names(M, N, *p)
            t = random_tensor(r, names, [D] * len(names))
            event("%s site %s" % (label, p))
            e.obj[p] = t
            e.held[p] = t
            e.sites[p] = (list(t._names), t._data.copy())

    def fill(e, positions, label):
        for p in positions:
            set_site(e, p, label)

    everything = [(i, j) for i in range(M) for j in range(N)]
    if spins:
        lattice = SamplingGradientLattice(M, N, D=D, Dc=Dc, d=d)
        entries.append(entry_of(lattice.spin, lattice, note(lattice)))
    else:
        entries.append(plain())
    fill(entries[0], everything, "system 0")
    for step in range(3 + choose(25, "steps")):
        k = choose(len(entries), "which system")
        e = entries[k]
        label = "system %d" % k
        action = choose(12, "action")
        if action <= 4:
            ask(e, faults, label)
        elif action <= 7:
            set_site(e, everything[choose(len(everything), "site")], label)
        elif action == 8:
            p = everything[choose(len(everything), "site")]
            if p in e.sites and coin(1, 2, "really"):
                event("%s forget %s" % (label, p))
                del e.obj[p]
                del e.sites[p]
                e.held.pop(p, None)
                e.spins.pop(p, None)
            else:
                missing = [p for p in everything if p not in e.sites]
                fill(e, missing, label)
        elif action == 9 and len(entries) < 4:
            event("copy of %s" % label)
            if e.owner is None:
                c = e.clone(SquareAuxiliariesSystem(e.obj))
                c.D = D
            elif e.obj is e.lattice.spin and coin(1, 2, "whole lattice"):
                box = []
                if not guarded("copying a lattice", faults, lambda: box.append(SamplingGradientLattice(e.lattice))):
                    continue
                lattice = box[0]
                c = e.clone(lattice.spin)
                c.lattice, c.owner, c.D, c.d = lattice, dict(e.owner), D, d
            else:
                c = e.clone(SpinConfiguration(e.obj))
                c.owner, c.D, c.d = e.owner, D, d
            entries.append(c)
            count("copies")
        elif action == 10 and e.owner is not None and e.obj is e.lattice.spin:
            # one tensor of the lattice is replaced and the spin there set again
            p = everything[choose(len(everything), "site")]
            names, array = e.owner[p]
            t = random_tensor(r, names, list(array.shape))
            event("%s tensor %s" % (label, p))
            shared = [x for x in entries if x is not e and x.owner is e.owner]
            if shared:
                continue
            e.lattice[p] = t
            e.owner[p] = (list(t._names), t._data.copy())
            del e.obj[p]
            e.sites.pop(p, None)
            e.spins.pop(p, None)
            set_site(e, p, label)
        elif action == 11 and len(entries) < 4:
            combine(e, entries, everything, label, faults, plain, entry_of, set_site, D, d)
        collect()
    for k, e in enumerate(entries):
        missing = [p for p in everything if p not in e.sites]
        for p in missing:
            while p not in e.sites:
                set_site(e, p, "system %d" % k)
        for _ in range(2):
            ask(e, False, "system %d" % k)


def combine(e, entries, everything, label, faults, plain, entry_of, set_site, D, d):
    """A second system holding other sites of the same lattice is built, asked about what it can answer, and joined."""
    absent = [p for p in everything if p not in e.sites]
    present = [p for p in everything if p in e.sites]
    if present and coin(1, 4, "a part that does not fit"):
        misfit = choose(3, "misfit") if e.owner is None else 0
        if misfit == 0:
            other = plain() if e.owner is None else entry_of(SpinConfiguration(e.lattice), e.lattice, e.owner)
        elif misfit == 1:
            other = Entry(SquareAuxiliariesSystem(e.M, e.N, e.Dc + 1), e.M, e.N, e.Dc + 1, e.exact)
        else:
            wide = coin(1, 2, "wider")
            other = Entry(SquareAuxiliariesSystem(e.M + (not wide), e.N + wide, e.Dc), e.M + (not wide), e.N + wide, e.Dc, e.exact)
        other.D = D
        if misfit < 2:
            for p in absent:
                set_site(other, p, "misfit")
        if misfit == 0:
            p = present[choose(len(present), "overlap")]
            if e.owner is None:
                set_site(other, p, "misfit")
            elif coin(1, 3, "the same spin"):
                # whether this fits or not, a copy either has all of it or none of it
                other.obj[p] = e.spins[p]
                copy = SpinConfiguration(e.obj)
                try:
                    copy += other.obj
                    wanted = {**e.spins, **other.spins}
                except ValueError:
                    wanted = e.spins
                if any(copy.configuration[i][j] != wanted.get((i, j), -1) for i, j in everything):
                    fail("configuration", "a join left a mixture of recorded spins")
                return
            else:
                other.obj[p] = (e.spins[p] + 1) % d
        event("join %s and what does not fit" % label)
        try:
            if coin(1, 2, "in place"):
                e.obj += other.obj
            else:
                e.obj + other.obj
        except ValueError:
            count("refused joins")
        else:
            fail("join", "two parts that do not fit were joined")
        if e.owner is not None and any(e.obj.configuration[i][j] != e.spins.get((i, j), -1) for i, j in everything):
            fail("configuration", "a refused join changed the recorded spins")
        ask(e, faults, label)
        return
    if not absent:
        # forget some rows or columns first
        rows = coin(1, 2, "rows")
        line = choose(e.M if rows else e.N, "line")
        for p in everything:
            if p[0 if rows else 1] == line:
                del e.obj[p]
                del e.sites[p]
                e.held.pop(p, None)
                e.spins.pop(p, None)
                absent.append(p)
    other = plain() if e.owner is None else entry_of(SpinConfiguration(e.lattice), e.lattice, e.owner)
    for p in absent:
        set_site(other, p, "part")
    # what the part knows of whole lines is cached in it
    kind = ["up-to-down", "down-to-up", "left-to-right", "right-to-left"][choose(4, "direction")]
    for _ in range(choose(3, "questions before joining")):
        ask(e, faults, label)
        ask(other, faults, "part")
    inplace = coin(1, 2, "in place")
    event("join %s and part %s" % (label, "in place" if inplace else ""))
    if inplace:
        before = e.obj
        e.obj += other.obj
        if e.obj is not before:
            fail("join", "joining in place made another object")
        joined = e
    else:
        joined = e.clone(e.obj + other.obj)
        joined.D = D
        if e.owner is not None:
            joined.d = d
        entries.append(joined)
    for p, s in other.sites.items():
        joined.sites.setdefault(p, s)
    for p, s in other.spins.items():
        joined.spins.setdefault(p, s)
    for p, t in other.held.items():
        joined.held.setdefault(p, t)
    if e.owner is not None:
        for p in everything:
            if p in joined.sites and joined.obj.configuration[p[0]][p[1]] == -1:
                fail("configuration", "a spin of one of the joined parts is not recorded")
    other_label = "part"
    ask(other, False, other_label)
    count("joins")


# ---------------------------------------------------------------- p02

def p02s():
    """Chains started with the probabilities of the state keep them; whatever the operators lead to is visited."""
    r = data_rng("data")
    simcore.run.data = r
    shapes = [(1, 1), (1, 2), (2, 1), (1, 3), (2, 2)]
    M, N = shapes[choose(5, "shape")]
    D, d = 1 + choose(2, "D"), 2 + (choose(2, "d") if M * N <= 2 else 0)
    everything = [(i, j) for i in range(M) for j in range(N)]
    lattice = SamplingGradientLattice(M, N, D=D, Dc=1000, d=d)
    state = state_of(M, N, {p: (list(lattice[p]._names), lattice[p]._data.copy()) for p in everything})
    weights = state**2 / np.sum(state**2)
    if not np.isfinite(weights).all() or weights.min() < 0.002:
        # every configuration can be met
        for p in everything:
            lattice[p]._data[...] = np.abs(lattice[p]._data) + 0.5
        state = state_of(M, N, {p: (list(lattice[p]._names), lattice[p]._data.copy()) for p in everything})
        weights = state**2 / np.sum(state**2)
    moves = []
    for _ in range(1 + choose(3, "terms")):
        if M * N > 1 and coin(1, 2, "two sites"):
            positions = tuple(random_neighbours(M, N))
        else:
            positions = (everything[choose(len(everything), "site")],)
        body = len(positions)
        # as many ways from one configuration to another as back
        a = np.zeros([d] * (2 * body))
        kind = choose(4, "operator")
        for x in np.ndindex(*([d] * body)):
            for y in np.ndindex(*([d] * body)):
                differ = [k for k in range(body) if x[k] != y[k]]
                if kind == 0 or (kind == 1 and (x == y or x == y[::-1])) or (kind == 2 and differ in ([], [0])) or (kind == 3 and differ in ([], [body - 1])):
                    a[x + y] = 0.5 + r.random()
        names = ["I%d" % k for k in range(body)] + ["O%d" % k for k in range(body)]
        t = Tensor(names, [d] * (2 * body))
        t.block[{}] = a
        lattice.hamiltonian[positions] = t
    for positions, t in lattice.hamiltonian.items():
        body = len(positions)
        a = t._data
        for x in np.ndindex(*([d] * body)):
            for y in np.ndindex(*([d] * body)):
                if x != y and a[x + y] != 0:
                    moves.append(([everything.index(p) for p in positions], x, y))
    configurations = list(np.ndindex(*([d] * (M * N))))
    cumulative = np.cumsum([weights[c] for c in configurations])
    simcore.run.stream = simcore._random.Random(choose(1 << 20, "random numbers"))
    draws = simcore._random.Random(choose(1 << 20, "starts"))
    steps, samples = 1 + choose(2, "steps"), 1500
    way = choose(2, "equilibrate")
    seen, visited = {}, set()
    event("%d chains of %d steps" % (samples, steps))
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        for _ in range(samples):
            start = configurations[min(int(np.searchsorted(cumulative, draws.random() * cumulative[-1])), len(configurations) - 1)]
            lattice.initialize_spin([[start[i * N + j] for j in range(N)] for i in range(M)])
            if way:
                lattice.equilibrate(steps)
            else:
                lattice.markov_chain(steps, {})
            end = tuple(lattice.spin.configuration[i][j] for i, j in everything)
            seen[end] = seen.get(end, 0) + 1
            visited.add((start, end))
    statistic, cells = 0.0, 0
    for c in configurations:
        want = samples * float(weights[c])
        if want >= 5:
            statistic += (seen.get(c, 0) - want)**2 / want
            cells += 1
    # the statistic of k cells exceeds k + 2 sqrt(k x) + 2 x with a probability below exp(-x)
    x = 30.0
    if statistic > cells + 2 * (cells * x)**0.5 + 2 * x:
        fail("distribution", "chains started with the probabilities of the state left them: statistic %.0f of %d cells" % (statistic, cells))
    # from every configuration met often the chain gets to each one a single operator leads to
    starts = {}
    for (a, b) in visited:
        starts.setdefault(a, set()).add(b)
    for axes, x, y in moves:
        for c in configurations:
            if tuple(c[k] for k in axes) != x or samples * float(weights[c]) < 200:
                continue
            other = list(c)
            for k, v in zip(axes, y):
                other[k] = v
            other = tuple(other)
            if 0.3 * weights[c] < weights[other] < 0.75 * weights[c]:
                reach, frontier = {c}, [c]
                while frontier:
                    z = frontier.pop()
                    for w in configurations:
                        if w not in reach and (z, w) in visited:
                            reach.add(w)
                            frontier.append(w)
                if other not in reach:
                    fail("never", "%s is never reached from %s although an operator leads there" % (other, c))
    count("chains", samples)


def random_operator(r, body, d):
    names = ["I%d" % k for k in range(body)] + ["O%d" % k for k in range(body)]
    r.shuffle(names)
    t = Tensor(names, [d] * (2 * body))
    style = r.randrange(3)
    a = np.array([0.0 if style and r.randrange(3) else r.gauss(0, 1) for _ in range(d**(2 * body))]).reshape([d] * (2 * body))
    if style == 2:
        # whole rows without elements
        a[r.randrange(d)] = 0
    t.block[{}] = a
    return t


def apply_operator(state, M, N, positions, names, array):
    """state: array with one axis per site, row by row. Returns (sum over all configurations of w(s) A(s, s') w(s'))."""
    axes = [i * N + j for i, j in positions]
    body = len(positions)
    order = [names.index("I%d" % k) for k in range(body)] + [names.index("O%d" % k) for k in range(body)]
    a = array.transpose(order)
    out = np.tensordot(a, state, (list(range(body)), axes))
    rest = [k for k in range(M * N) if k not in axes]
    back = [0] * (M * N)
    for k, x in enumerate(axes + rest):
        back[x] = k
    return float(np.sum(out.transpose(back) * state))


def state_of(M, N, tensors):
    labels, value = contract_network(M, N, tensors)
    return value.transpose([labels.index(("P", i, j)) for i in range(M) for j in range(N)])


def numbers(what, got, want, scale):
    if not abs(got - want) <= 1e-8 * scale + 1e-12:
        fail("wrong-number", "%s is %r instead of %r" % (what, got, want))


def p02(actions, more=[]):
    r = data_rng("data")
    simcore.run.data = r
    shapes = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)] + more
    M, N = shapes[choose(len(shapes), "shape")]
    D, d = 1 + choose(2, "D"), 2 + (choose(2, "d") if M * N <= 2 else 0)
    faults = coin(1, 3, "faults")
    everything = [(i, j) for i in range(M) for j in range(N)]

    def some_positions():
        if M * N > 1 and coin(1, 2, "two sites"):
            return tuple(random_neighbours(M, N))
        return (everything[choose(len(everything), "site")],)

    def note(lattice):
        return {p: (list(lattice[p]._names), lattice[p]._data.copy()) for p in everything}

    def check_same(what, lattice, before):
        for p, (names, array) in before.items():
            if lattice[p]._names != names or lattice[p]._data.shape != array.shape or not np.array_equal(lattice[p]._data, array):
                fail("changed", "%s changed the tensor at %s of another lattice" % (what, p))

    def terms(lattice):
        if M * N > 4 and coin(1, 2, "a line of terms"):
            i, turned = choose(2, "line"), M > N
            for j in range(2):
                positions = ((i, j), (i, j + 1)) if not turned else ((j, i), (j + 1, i))
                if coin(1, 4, "turned around"):
                    positions = positions[::-1]
                lattice.hamiltonian[positions] = random_operator(r, 2, d)
            return
        for _ in range(choose(4, "terms")):
            positions = some_positions()
            lattice.hamiltonian[positions] = random_operator(r, len(positions), d)

    def sampling():
        l = SamplingGradientLattice(M, N, D=D, Dc=1000, d=d)
        for p in everything:
            if r.randrange(4) == 0:
                names, array = l[p]._names, l[p]._data
                array[tuple(0 if n == "P" else slice(None) for n in names)] = 0
        return l

    def captured(function):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            return function(), out.getvalue()

    def markov(lattice):
        # every step measures one configuration, one that the operators can lead to from the last one
        state = state_of(M, N, note(lattice))
        if any(lattice.spin.configuration[i][j] == -1 for i, j in everything):
            wanted = [[choose(d, "spin") for _ in range(N)] for _ in range(M)]
            if coin(1, 4, "plain start"):
                wanted = [[(i + j) % d for j in range(N)] for i in range(M)]
                lattice.initialize_spin()
            else:
                lattice.initialize_spin(wanted)
            if lattice.spin.configuration != wanted:
                fail("configuration", "the spins are not those asked for")
        largest = float(np.max(np.abs(state)))

        def current():
            return tuple(lattice.spin.configuration[i][j] for i, j in everything)

        if largest < 1e-10 or abs(state[current()]) < 1e-6 * largest:
            return
        event("markov chain")
        for _ in range(choose(3, "rounds")):
            if coin(1, 3, "equilibrate"):
                if not guarded("equilibrate", faults, lambda: captured(lambda: lattice.equilibrate(1 + choose(2, "steps")))):
                    return
            before = current()
            observers = {}
            if coin(1, 2, "observers"):
                positions = some_positions()
                observers["kind"] = {positions: random_operator(r, len(positions), d)}
            gradient = coin(1, 2, "gradient")
            energy = gradient or coin(1, 2, "energy")
            box = []
            args = [observers] if observers or coin(1, 2, "name no observers") else []
            keys = {k: set(v) for k, v in observers.items()}
            if coin(1, 3, "several steps"):
                several(lattice, args, energy, gradient)
                before = current()
            done = guarded("markov_chain", faults, lambda: box.append(captured(lambda: lattice.markov_chain(1, *args, calculate_energy=energy, calculate_gradient=gradient))))
            if {k: set(v) for k, v in observers.items()} != keys:
                fail("changed", "sampling changed the caller's observers to %s" % sorted(map(str, observers)))
            if not reachable(before, current(), lattice.hamiltonian):
                fail("hopping", "the spins went to a configuration no operator leads to")
            if not done:
                return
            s = current()
            ws = float(state[s])
            if abs(ws) < 1e-6 * largest:
                return
            result, text = box[0]
            values = {k: {p: local(state, s, p, t) for p, t in g.items()} for k, g in list(observers.items()) + ([("Energy", lattice.hamiltonian)] if energy else [])}
            if {k: set(v) for k, v in result.items() if k not in ("Delta", "EDelta")} != {k: set(v) for k, v in values.items()}:
                fail("kinds", "sampled %s instead of %s" % (sorted(map(str, result)), sorted(values)))
            scale = (largest / abs(ws) + 1) * (1 + max([float(np.max(np.abs(t._data))) for g in list(observers.values()) + [lattice.hamiltonian] for t in g.values()] + [0])) * d**2
            for k, g in values.items():
                for p, want in g.items():
                    numbers("%s at %s sampled once" % (k, p), float(result[k][p]), want, scale)
            if gradient:
                Es = sum(values["Energy"].values())
                sites = {p: shrunk(*note(lattice)[p], s[n]) for n, p in enumerate(everything)}
                for p in everything:
                    labels, value = contract_network(M, N, {q: x for q, x in sites.items() if q != p})
                    names = hole_labels(M, N, [p])
                    order = sorted(names)
                    want = value.transpose([labels.index(names[n]) for n in order]) / ws
                    for kind, factor in (("Delta", 1.0), ("EDelta", Es)):
                        got = result[kind][(p,)]
                        data = got._data.transpose([got._names.index(n) for n in order]) if sorted(got._names) == order else None
                        if data is None or data.shape != want.shape or not np.all(np.abs(data - factor * want) <= 1e-8 * (1 + abs(factor)) * (1 + float(np.max(np.abs(want)))) * scale):
                            fail("wrong-number", "%s at %s is wrong" % (kind, p))
                count("gradients")
            count("samples")

    def several(lattice, args, energy, gradient):
        # a chain of several steps gives the sum of chains of one step each with the same random numbers
        steps, seed = 2 + choose(3, "steps of the chain"), choose(1 << 16, "random numbers")
        results = []
        for together in (True, False):
            other = SamplingGradientLattice(lattice)
            simcore.run.stream = simcore._random.Random(seed)
            try:
                parts = [captured(lambda: other.markov_chain(steps if together else 1, *args, calculate_energy=energy, calculate_gradient=gradient))[0] for _ in range(1 if together else steps)]
            finally:
                simcore.run.stream = None
            total = {}
            for part in parts:
                for kind, group in part.items():
                    for p, x in group.items():
                        x = x._data.transpose([x._names.index(n) for n in sorted(x._names)]) if hasattr(x, "_data") else np.array(float(x))
                        total[kind, p] = total.get((kind, p), 0) + x
            results.append((total, other.spin.configuration))
        (a, end_a), (b, end_b) = results
        if end_a != end_b or set(a) != set(b):
            fail("chain", "a chain of %d steps ends elsewhere than %d chains of one step with the same random numbers" % (steps, steps))
        for key in a:
            if np.shape(a[key]) != np.shape(b[key]) or not np.all(np.abs(a[key] - b[key]) <= 1e-8 * (1 + np.max(np.abs(b[key])))):
                fail("chain", "%s after %d steps is not the sum of what the single steps gave" % (key, steps))
        count("chains")

    def applied(state, t, positions):
        body = len(positions)
        order = [t._names.index("I%d" % k) for k in range(body)] + [t._names.index("O%d" % k) for k in range(body)]
        axes = [everything.index(p) for p in positions]
        out = np.tensordot(t._data.transpose(order), state, (list(range(body)), axes))
        back = [0] * (M * N)
        for k, x in enumerate(axes + [k for k in range(M * N) if k not in axes]):
            back[x] = k
        return out.transpose(back)

    def evolved(state, hamiltonian, time, delta):
        items = list(hamiltonian.items())
        for _ in range(time):
            for positions, t in items + items[::-1]:
                body = len(positions)
                order = [t._names.index("I%d" % k) for k in range(body)] + [t._names.index("O%d" % k) for k in range(body)]
                matrix = -delta * t._data.transpose(order).reshape(d**body, d**body)
                value = term = np.eye(d**body)
                for k in range(1, 40):
                    term = term @ matrix / k
                    value = value + term
                axes = [everything.index(p) for p in positions]
                out = np.tensordot(value.reshape([d] * (2 * body)), state, (list(range(body)), axes))
                back = [0] * (M * N)
                for k, x in enumerate(axes + [k for k in range(M * N) if k not in axes]):
                    back[x] = k
                state = out.transpose(back)
        return state

    def simple_tensors(simple):
        tensors = note(simple)
        for (direction, i, j), s in simple.environment.items():
            names, array = tensors[i, j]
            shape = [-1 if n == direction else 1 for n in names]
            tensors[i, j] = (names, array * np.diagonal(s._data).reshape(shape))
        return tensors

    def condition(tensors):
        # how much larger the parts of a norm are than the norm itself
        whole = float(np.sum(state_of(M, N, {p: (names, np.abs(array)) for p, (names, array) in tensors.items()})**2))
        return 1 + whole / max(float(np.sum(state_of(M, N, tensors)**2)), 1e-300)

    def local(state, s, positions, t):
        # sum over s' of A(s, s') w(s') / w(s)
        total, body = 0.0, len(positions)
        order = [t._names.index("I%d" % k) for k in range(body)] + [t._names.index("O%d" % k) for k in range(body)]
        a = t._data.transpose(order)[tuple(s[everything.index(p)] for p in positions)]
        for out in np.ndindex(*a.shape):
            other = list(s)
            for p, x in zip(positions, out):
                other[everything.index(p)] = x
            total += float(a[out]) * float(state[tuple(other)])
        return total / float(state[s])

    def reachable(a, b, hamiltonian):
        frontier, seen = [a], {a}
        while frontier and b not in seen:
            x = frontier.pop()
            for positions, t in hamiltonian.items():
                body = len(positions)
                order = [t._names.index("I%d" % k) for k in range(body)] + [t._names.index("O%d" % k) for k in range(body)]
                row = t._data.transpose(order)[tuple(x[everything.index(p)] for p in positions)]
                for out in np.ndindex(*row.shape):
                    if row[out] != 0:
                        y = list(x)
                        for p, v in zip(positions, out):
                            y[everything.index(p)] = v
                        y = tuple(y)
                        if y not in seen:
                            seen.add(y)
                            frontier.append(y)
        return b in seen

    def copies(lattice):
        # what is done to a copy stays there, and what is done to the original does not reach the copy
        event("copy and change")
        kind = choose(3, "kind")
        if kind == 0:
            first = lattice
            make = SamplingGradientLattice
        elif kind == 1:
            first = SimpleUpdateLattice(lattice)
            make = SimpleUpdateLattice
        else:
            first = ExactLattice(M, N, d=d)
            make = ExactLattice
            terms(first)
        box = []
        if not guarded("copying", faults, lambda: box.append(make(first))):
            return
        second = box[0]
        pair = [first, second] if coin(1, 2, "change the copy") else [second, first]
        witness, changed = pair
        if kind != 2:
            before = note(witness)
        else:
            before = witness.vector._data.copy()
        held = {p: t._data.copy() for p, t in witness.hamiltonian.items()}
        for _ in range(1 + choose(3, "changes")):
            what = choose(3, "change")
            if what == 0:
                terms(changed)
            elif what == 1 and kind != 2:
                p = everything[choose(len(everything), "site")]
                changed[p] = random_tensor(r, list(changed[p]._names), list(changed[p]._data.shape))
                if kind == 0 and changed.spin.configuration[p[0]][p[1]] != -1:
                    del changed.spin[p]
            elif what == 1:
                guarded("update", faults, lambda: captured(lambda: changed.update(1, 0.5)))
            elif changed.hamiltonian:
                changed.hamiltonian.pop(list(changed.hamiltonian)[choose(len(changed.hamiltonian), "term")])
        if kind != 2:
            check_same("changing a copy", witness, before)
        elif not np.array_equal(witness.vector._data, before):
            fail("changed", "changing a copied state vector changed the other one")
        if set(held) != set(witness.hamiltonian) or any(not np.array_equal(a, witness.hamiltonian[p]._data) for p, a in held.items()):
            fail("changed", "changing a copy changed the terms of the other lattice")
        count("copies")

    lattice = sampling()
    terms(lattice)
    kept = {}
    for step in range(2 + choose(8, "steps")):
        action = actions[choose(len(actions), "action")]
        if action == 8:
            markov(lattice)
        elif action == 9:
            copies(lattice)
        elif action <= 3:
            # measure: with or without observers of the caller, with or without energy
            state = state_of(M, N, note(lattice))
            norm = float(np.sum(state * state))
            energy = coin(1, 2, "energy")
            own = choose(3, "observers")
            if own == 0:
                observers = None
            elif own == 1 and kept:
                observers = kept
            else:
                observers = {}
                for k in range(1 + choose(2, "kinds")):
                    group = {}
                    for _ in range(1 + choose(2, "observers of a kind")):
                        positions = some_positions()
                        group[positions] = random_operator(r, len(positions), d)
                    observers["kind %d" % k] = group
                if coin(1, 2, "keep"):
                    kept = observers
            expected = {}
            for kind, group in list((observers or {}).items()) + ([("Energy", lattice.hamiltonian)] if energy else []):
                expected[kind] = {p: apply_operator(state, M, N, p, list(t._names), t._data) for p, t in group.items()}
            scale = max(norm, 1e-300) * (1 + max([float(np.max(np.abs(t._data))) for g in list((observers or {}).values()) + [lattice.hamiltonian] for t in g.values()] + [0])) * d**2
            keys = {k: set(v) for k, v in observers.items()} if observers is not None else None
            event("measure energy=%s observers=%s" % (energy, sorted(expected)))
            box = []

            def act():
                args = [] if observers is None else [observers]
                box.append(captured(lambda: lattice.ergodic(*args, calculate_energy=energy)))

            if norm < 1e-20:
                continue
            if not guarded("ergodic", faults, act):
                continue
            result, text = box[0]
            if {k: set(v) for k, v in result.items()} != {k: set(v) for k, v in expected.items()}:
                fail("kinds", "measured %s instead of %s" % (sorted(map(str, result)), sorted(expected)))
            for kind in expected:
                for p, want in expected[kind].items():
                    numbers("%s at %s" % (kind, p), float(result[kind][p]), want, scale)
            if keys is not None and {k: set(v) for k, v in observers.items()} != keys:
                fail("changed", "measuring changed the caller's observers to %s" % sorted(map(str, observers)))
            if energy and lattice.hamiltonian:
                found = re.findall(r"Energy=([^\s,]+)", text)
                numbers("the printed energy", float(found[-1]), sum(expected["Energy"].values()) / norm / (M * N), scale / norm * (1 + len(lattice.hamiltonian)))
            count("measurements")
        elif action == 4:
            # the terms are replaced; the old operators die
            event("new terms")
            lattice.hamiltonian = {}
            terms(lattice)
        elif action == 5:
            p = everything[choose(len(everything), "site")]
            event("new tensor at %s" % (p,))
            lattice[p] = random_tensor(r, list(lattice[p]._names), list(lattice[p]._data.shape))
            if lattice.spin.configuration[p[0]][p[1]] != -1:
                del lattice.spin[p]
        elif action == 6:
            # state vectors and their copies
            event("state vectors")
            exact = ExactLattice(lattice)
            exact.hamiltonian = {}
            for positions, t in lattice.hamiltonian.items():
                exact.hamiltonian[positions] = t
            copy = ExactLattice(exact)
            state = state_of(M, N, note(lattice))
            norm = float(np.sum(state * state))
            if norm < 1e-20:
                continue
            before = exact.vector._data.copy()
            time, approximate = 1 + choose(3, "time"), -[0.5, 2.0, 5.0][choose(3, "approximate energy")]
            box = []
            done = guarded("update", faults, lambda: box.append(captured(lambda: copy.update(time, approximate))[0]))
            if not np.array_equal(exact.vector._data, before):
                fail("changed", "updating a copied state vector changed the original")
            if done:
                # (a - H) applied again and again, the energy is a - v'/v in the last step
                want, a = state / float(np.max(np.abs(state))), abs(approximate) * M * N
                usable = True
                for _ in range(time):
                    want = a * want - sum([applied(want, t, positions) for positions, t in exact.hamiltonian.items()])
                    largest = float(np.max(np.abs(want)))
                    if largest < 1e-6 * a:
                        usable = False
                        break
                    want = want / largest
                if usable:
                    got = copy.vector._data.transpose([copy.vector._names.index("P-%d-%d" % p) for p in everything])
                    overlap = float(np.sum(got * want)) / np.sqrt(float(np.sum(got * got)) * float(np.sum(want * want)))
                    numbers("the overlap of an updated state vector and what it should be", overlap, 1.0, 100)
                    hard = 100 * (1 + sum(float(np.max(np.abs(t._data))) for t in exact.hamiltonian.values())) * d**2
                    numbers("the energy an update reports", box[0], (a - largest) / (M * N), hard)
                    energy = sum([float(np.sum(want * applied(want, t, positions))) for positions, t in exact.hamiltonian.items()]) / float(np.sum(want * want)) / (M * N)
                    numbers("the energy of a state vector", copy.observe_energy(), energy, hard)
                    count("updated state vectors")
            positions = some_positions()
            op = random_operator(r, len(positions), d)
            want = apply_operator(state, M, N, positions, list(op._names), op._data) / norm
            numbers("an observable of the state vector", exact.observe(positions, op), want, 1 + float(np.max(np.abs(op._data))) * d**2)
            count("state vectors")
        else:
            # simple update lattices, their copies and their observables
            event("simple update")
            simple = SimpleUpdateLattice(lattice)
            before = note(lattice)
            expected = state_of(M, N, before)
            usable = float(np.max(np.abs(expected))) > 1e-6
            singular_start = any(np.any(array == 0) for _, array in before.values())
            for k in range(choose(3, "updates")):
                copy = SimpleUpdateLattice(simple)
                now, environment = note(simple), {k: v._data.copy() for k, v in simple.environment.items()}
                time, whole = 1 + choose(2, "time"), coin(1, 2, "nothing is cut")
                if M * N > 4:
                    whole, time = whole and len(simple.hamiltonian) <= (3 if D == 1 else 2), 1
                dimension = 64 if whole else 1 + choose(3, "new dimension")
                delta = [0.05, 0.01, 0.3][choose(3, "delta")]
                if coin(1, 4, "observed before"):
                    # what is known of the lattice before an update is not what holds after it
                    copy.initialize_auxiliary(1 + choose(4, "cut"))
                    where = some_positions()
                    copy.observe(where, random_operator(r, len(where), d), False)
                try:
                    done = guarded("simple update", faults, lambda: captured(lambda: copy.simple_update(time, delta, dimension)))
                except FloatingPointError:
                    # a bond that carries nothing at all, or less than it has room for, was divided by nothing
                    if not singular_start and k == 0 and dimension == 1:
                        fail("not-a-number", "a simple update of a regular lattice ended with what is not a number")
                    done = False
                    simcore.disarm()
                    count("singular")
                check_same("updating a copy", simple, now)
                if set(environment) != set(simple.environment) or any(not np.array_equal(v, simple.environment[k]._data) for k, v in environment.items()):
                    fail("changed", "updating a copy changed the environment of the original")
                if not done:
                    break
                simple = copy
                if not all(np.all(np.isfinite(array)) for _, array in note(simple).values()):
                    usable = False
                    break
                expected = evolved(expected, simple.hamiltonian, time, delta) if whole and expected is not None else None
                for positions in simple.hamiltonian:
                    if len(positions) == 2:
                        first, second = sorted(positions)
                        direction = "R" if first[0] == second[0] else "D"
                        t = simple[first]
                        if t._data.shape[t._names.index(direction)] > dimension:
                            fail("dimension", "a bond is larger than the dimension asked for")
            check_same("simple update", lattice, before)
            # bonds that carry next to nothing are divided by next to nothing
            if not usable or any(np.min(np.abs(np.diagonal(v._data))) < 1e-6 for v in simple.environment.values()):
                count("singular")
                continue
            state = state_of(M, N, simple_tensors(simple))
            norm = float(np.sum(state * state))
            if not norm > 1e-12:
                continue
            if expected is not None:
                overlap = float(np.sum(state * expected)) / np.sqrt(norm * float(np.sum(expected * expected)))
                if not abs(abs(overlap) - 1) < 1e-6:
                    fail("evolution", "an update that cuts nothing does not apply its terms: overlap %r" % overlap)
                count("exact updates")
            vector = ExactLattice(simple).vector
            vector = vector._data.transpose([vector._names.index("P-%d-%d" % p) for p in everything])
            overlap = float(np.sum(state * vector)) / np.sqrt(norm * float(np.sum(vector * vector)))
            numbers("the overlap of a simple update lattice and its state vector", overlap, 1.0, 1)
            sampled = state_of(M, N, note(SamplingGradientLattice(simple, Dc=4)))
            overlap = float(np.sum(state * sampled)) / np.sqrt(norm * float(np.sum(sampled * sampled)))
            numbers("the overlap of a simple update lattice and its sampling lattice", overlap, 1.0, 1)
            positions = some_positions()
            op = random_operator(r, len(positions), d)
            want = apply_operator(state, M, N, positions, list(op._names), op._data) / norm
            energy = sum(apply_operator(state, M, N, p, list(t._names), t._data) for p, t in simple.hamiltonian.items()) / norm / (M * N)
            if not guarded("initialize_auxiliary", faults, lambda: simple.initialize_auxiliary(1000)):
                continue
            other = SimpleUpdateLattice(simple)
            scale = (1 + float(np.max(np.abs(op._data))) * d**2) * condition(simple_tensors(simple))
            box = []
            if guarded("observe", faults, lambda: box.append(simple.observe(positions, op))):
                numbers("an observable of the simple update lattice", box[0], want, scale)
            numbers("an observable of a copied simple update lattice", other.observe(positions, op), want, scale)
            if simple.hamiltonian:
                numbers("the energy of the simple update lattice", simple.observe_energy(), energy, scale * 10 * (1 + max(float(np.max(np.abs(t._data))) for t in simple.hamiltonian.values())))
            count("simple updates")
        collect()
