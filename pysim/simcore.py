"""Decisions, faults and history of one simulated run of the Python package."""
import hashlib
import random as _random
import struct


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls = cls
        self.msg = msg


class Hang(BaseException):
    """Computing time ran out."""


class Discard(Exception):
    pass


class Run:
    def __init__(self, seed=None, choices=None):
        self.rng = _random.Random(seed) if seed is not None else None
        self.replay = choices
        self.choices = []
        self.hash = hashlib.sha256()
        self.schedule = hashlib.sha256()
        self.counters = {}
        self.log = None
        self.steps = 0
        self.nontrivial = False
        self.armed = 0
        self.persistent = False
        self.fired = 0
        self.free = []
        self.next_address = 1
        self.data = _random.Random(0)
        self.reuse = False
        self.stream = None
        self.shared = None  # decisions where they survive a crash of the process


run = None


def choose(n, tag):
    i = len(run.choices)
    if i >= 1 << 16:
        raise Discard("too many decisions")
    if run.replay is not None:
        v = run.replay[i] % n if i < len(run.replay) else 0
    else:
        v = run.rng.randrange(n)
    run.choices.append(v)
    if run.shared is not None:
        struct.pack_into("<i", run.shared, 4 * (i + 1), v)
        struct.pack_into("<i", run.shared, 0, i + 1)
    run.steps += 1
    run.hash.update(b"%d/%d;" % (v, n))
    if run.log is not None:
        run.log.append("        #%d %s: %d of %d" % (i, tag, v, n))
    return v


def coin(a, b, tag):
    return choose(b, tag) < a


def data_rng(tag):
    return _random.Random(choose(1 << 20, tag))


def event(text):
    run.hash.update(text.encode())
    if run.log is not None:
        run.log.append(text)


def scheduled(text):
    run.schedule.update(text.encode())
    event(text)


def count(name, n=1):
    run.counters[name] = run.counters.get(name, 0) + n


def fail(cls, msg):
    raise Violation(cls, msg)


# ---- memory

def arm(at, persistent):
    run.armed = at
    run.persistent = persistent
    run.fired = 0


def disarm():
    run.armed = 0
    return run.fired


def operation(what):
    """Every tensor operation needs memory: here it may run out."""
    run.steps += 1
    if run.armed:
        run.armed -= 1
        if run.armed == 0:
            run.fired += 1
            if run.persistent:
                run.armed = 1
            count("fault.allocation_failure")
            event("memory runs out in %s" % what)
            raise MemoryError("simulated")


def take_address():
    """Addresses of dead tensors are used again, the last one first or any of them."""
    if run.free and run.reuse:
        count("addresses used again")
        return run.free.pop()
    run.next_address += 1
    return run.next_address


def give_back_address(address):
    if run is not None:
        run.free.append(address)


# ---- numbers

def normal(shape):
    import numpy as np
    n = 1
    for d in shape:
        n *= d
    return np.array([run.data.gauss(0, 1) for _ in range(n)]).reshape(shape)


def uniform_int(low, high):
    if run.stream is not None:
        return run.stream.randint(low, high)
    return low + choose(high - low + 1, "random integer")


def uniform_real(low, high):
    if run.stream is not None:
        return low + (high - low) * run.stream.random()
    return low + (high - low) * choose(1 << 20, "random number") / (1 << 20)
