"""Stand-in for the compiled tensor module: the part of its interface the Python package uses,
on numpy, with every operation a point where the simulator may let memory run out."""
import numpy as np

import simcore

np.seterr(all="ignore")


class Name:
    __slots__ = ["text"]

    def __init__(self, text):
        self.text = str(text)

    def __str__(self):
        return self.text

    def __repr__(self):
        return "Name[%s]" % self.text


def _text(n):
    return n if isinstance(n, str) else n.text


class _Block:
    __slots__ = ["tensor"]

    def __init__(self, tensor):
        self.tensor = tensor

    def __getitem__(self, key):
        return self.tensor._data

    def __setitem__(self, key, value):
        self.tensor._data[...] = np.asarray(value, dtype=self.tensor._data.dtype).reshape(self.tensor._data.shape)


class _Base:
    """Values behave like those of the compiled module: in-place operators change the object, everything else makes a new one."""
    __slots__ = ["_names", "_data", "_address", "__weakref__"]
    _dtype = None

    def __init__(self, names=None, dimensions=None):
        simcore.operation("create")
        self._address = simcore.take_address()
        if dimensions is None:
            if names is None:
                raise TypeError("invalid tensor")
            self._names = []
            self._data = np.array(names, dtype=self._dtype)
        else:
            self._names = [_text(n) for n in names]
            self._data = np.zeros([int(d) for d in dimensions], dtype=self._dtype)

    def __del__(self):
        address = getattr(self, "_address", None)
        if address is not None:
            simcore.give_back_address(address)

    @classmethod
    def _make(cls, names, data, what="result"):
        simcore.operation(what)
        result = object.__new__(cls)
        result._address = simcore.take_address()
        result._names = list(names)
        result._data = np.ascontiguousarray(data).reshape(np.shape(data))
        if len(set(result._names)) != len(result._names) or result._data.ndim != len(result._names):
            raise RuntimeError("tensor with wrong or repeated names %s" % result._names)
        return result

    @property
    def name(self):
        return [Name(n) for n in self._names]

    @property
    def block(self):
        return _Block(self)

    def copy(self):
        return self._make(self._names, self._data.copy())

    def same_shape(self):
        return self._make(self._names, np.zeros_like(self._data))

    def zero(self):
        self._data[...] = 0
        return self

    def randn(self, mean=0, stddev=1):
        self._data[...] = simcore.normal(self._data.shape) * stddev + mean
        return self

    def identity(self, pairs):
        (a, b), = pairs
        self._data[...] = np.eye(*self._data.shape)
        return self

    def norm_max(self):
        return float(np.max(np.abs(self._data))) if self._data.size else 0.0

    def edge_rename(self, dictionary):
        dictionary = {_text(k): _text(v) for k, v in dictionary.items()}
        return self._make([dictionary.get(n, n) for n in self._names], self._data.copy(), "rename")

    def to(self, kind):
        cls = Tensor.ZNo if kind is complex else Tensor.DNo
        data = self._data.astype(complex) if kind is complex else np.real(self._data).astype(float)
        return cls._make(self._names, data)

    def _common(self, other):
        return Tensor.ZNo if isinstance(self, Tensor.ZNo) or isinstance(other, Tensor.ZNo) else Tensor.DNo

    def contract(self, other, pairs):
        pairs = sorted((_text(a), _text(b)) for a, b in pairs)
        pairs = [(a, b) for a, b in pairs if a in self._names and b in other._names]
        left = [self._names.index(a) for a, _ in pairs]
        right = [other._names.index(b) for _, b in pairs]
        data = np.tensordot(self._data, other._data, (left, right))
        names = [n for i, n in enumerate(self._names) if i not in left] + [n for i, n in enumerate(other._names) if i not in right]
        return self._common(other)._make(names, data, "contract")

    def contract_all_edge(self, other):
        return self.contract(other, {(n, n) for n in self._names if n in other._names})

    def shrink(self, configuration):
        index = tuple(int(configuration[n]) if n in configuration else slice(None) for n in self._names)
        for n, d in zip(self._names, self._data.shape):
            if n in configuration and not 0 <= configuration[n] < d:
                raise IndexError("shrink out of range")
        return self._make([n for n in self._names if n not in configuration], self._data[index].copy(), "shrink")

    def merge_edge(self, merge):
        merge = {_text(k): [_text(x) for x in v] for k, v in merge.items()}
        names, order, shape = [], [], []
        used = {x for v in merge.values() for x in v}
        groups = {v[0]: k for k, v in merge.items() if v}
        for i, n in enumerate(self._names):
            if n in groups:
                members = [self._names.index(x) for x in merge[groups[n]]]
                names.append(groups[n])
                order += members
                shape.append(int(np.prod([self._data.shape[m] for m in members])))
            elif n not in used:
                names.append(n)
                order.append(i)
                shape.append(self._data.shape[i])
        return self._make(names, self._data.transpose(order).reshape(shape).copy(), "merge")

    def _split(self, first):
        a = [i for i, n in enumerate(self._names) if n in first]
        b = [i for i, n in enumerate(self._names) if n not in first]
        sa = [self._data.shape[i] for i in a]
        sb = [self._data.shape[i] for i in b]
        matrix = self._data.transpose(a + b).reshape(int(np.prod(sa)), int(np.prod(sb)))
        return matrix, [self._names[i] for i in a], sa, [self._names[i] for i in b], sb

    def qr(self, side, free, name_q, name_r):
        free = {_text(n) for n in free}
        q_names = {n for n in self._names if n not in free} if side in "rR" else free
        matrix, na, sa, nb, sb = self._split(q_names)
        q, r = np.linalg.qr(matrix)
        return (self._make(na + [name_q], q.reshape(sa + [q.shape[1]]), "qr"), self._make([name_r] + nb, r.reshape([r.shape[0]] + sb), "qr"))

    def svd(self, free, name_u, name_v, cut=-1):
        matrix, na, sa, nb, sb = self._split({_text(n) for n in free})
        if not np.all(np.isfinite(matrix)):
            raise FloatingPointError("decomposition of what is not a number")
        u, s, v = np.linalg.svd(matrix, full_matrices=False)
        k = len(s) if cut == -1 else max(1, min(int(cut), len(s)))
        return (self._make(na + [name_u], u[:, :k].reshape(sa + [k]), "svd"), self._make(["SVD_U", "SVD_V"], np.diag(s[:k]), "svd"),
                self._make([name_v] + nb, v[:k].reshape([k] + sb), "svd"))

    def multiple(self, singular, name, side, division=False):
        if name not in self._names:
            return self.copy()
        axis = self._names.index(name)
        diagonal = np.diagonal(singular._data)
        shape = [1] * self._data.ndim
        shape[axis] = len(diagonal)
        factor = diagonal.reshape(shape)
        return self._make(self._names, self._data / factor if division else self._data * factor, "multiple")

    def exponential(self, pairs, step=2):
        pairs = sorted(pairs)
        matrix, na, sa, nb, sb = self.transpose_to([a for a, _ in pairs] + [b for _, b in pairs])._split({a for a, _ in pairs})
        value, term = np.eye(matrix.shape[0]), np.eye(matrix.shape[0])
        for k in range(1, 40):
            term = term @ matrix / k
            value = value + term
        return self._make(na + nb, value.reshape(sa + sb), "exponential")

    def transpose_to(self, names):
        return self._make(names, self._data.transpose([self._names.index(n) for n in names]))

    def __getitem__(self, position):
        return self._data[tuple(int(position[n]) for n in self._names)].item()

    def __setitem__(self, position, value):
        self._data[tuple(int(position[n]) for n in self._names)] = value

    def __float__(self):
        if self._data.size != 1:
            raise RuntimeError("a tensor with several elements is no number")
        return float(np.real(self._data.reshape(1)[0]))

    def __complex__(self):
        if self._data.size != 1:
            raise RuntimeError("a tensor with several elements is no number")
        return complex(self._data.reshape(1)[0])

    def _operand(self, other):
        if isinstance(other, _Base):
            if sorted(other._names) != sorted(self._names):
                raise RuntimeError("different edges")
            return other._data.transpose([other._names.index(n) for n in self._names])
        return other

    def _binary(self, other, function):
        cls = self._common(other)
        if isinstance(other, complex):
            cls = Tensor.ZNo
        return cls._make(self._names, np.asarray(function(self._data, self._operand(other)), dtype=cls._dtype), "arithmetic")

    def _inplace(self, other, function):
        value = function(self._data, self._operand(other))
        simcore.operation("in-place")
        self._data[...] = value
        return self

    def __add__(self, other):
        return self._binary(other, np.add)

    def __sub__(self, other):
        return self._binary(other, np.subtract)

    def __mul__(self, other):
        return self._binary(other, np.multiply)

    def __truediv__(self, other):
        return self._binary(other, np.divide)

    __radd__ = __add__
    __rmul__ = __mul__

    def __rsub__(self, other):
        return self._binary(other, lambda a, b: np.subtract(b, a))

    def __iadd__(self, other):
        return self._inplace(other, np.add)

    def __isub__(self, other):
        return self._inplace(other, np.subtract)

    def __imul__(self, other):
        return self._inplace(other, np.multiply)

    def __itruediv__(self, other):
        return self._inplace(other, np.divide)


class DNo(_Base):
    __slots__ = []
    _dtype = float


class ZNo(_Base):
    __slots__ = []
    _dtype = complex


class Tensor:
    DNo = DNo
    ZNo = ZNo


def __call__(kind):
    return DNo


class random:
    @staticmethod
    def uniform_int(low=0, high=1):
        return lambda: simcore.uniform_int(low, high)

    @staticmethod
    def uniform_real(low=0, high=1):
        return lambda: simcore.uniform_real(low, high)

    @staticmethod
    def normal(mean=0, stddev=1):
        return lambda: mean + stddev * simcore.run.data.gauss(0, 1)

    @staticmethod
    def seed(value):
        pass
