"""A small stand-in for the parts of PyTorch (0.4.1, the version the repository asks for) that its Python side uses,
on top of numpy: tensors, the layers of the network, losses.  What it does not know raises Unsupported, which the
harnesses count as "not judged", never as a violation."""
import builtins
import contextlib
import math
import sys
import types

import numpy as np


class Unsupported(AttributeError):
    pass


def arr(x):
    return x.a if isinstance(x, Tensor) else x


def unw(x):
    """indices: tensors inside tuples and lists become arrays"""
    if isinstance(x, Tensor):
        return x.a.astype(bool) if x.a.dtype == np.uint8 else x.a
    if isinstance(x, tuple):
        return tuple(unw(y) for y in x)
    if isinstance(x, list):
        return [unw(y) for y in x]
    return x


def sizes(s):
    if len(s) == 1 and isinstance(s[0], (tuple, list)):
        s = s[0]
    return tuple(int(arr(x)) for x in s)


FLOATS = (np.float16, np.float32, np.float64)


def wrap(a, like=None):
    a = np.asarray(a)
    return Tensor(a)


def binop(f, reflected=False):
    def op(self, o):
        if not isinstance(o, (Tensor, int, float, bool, np.ndarray, np.generic)):
            return NotImplemented
        x, y = self.a, arr(o)
        if isinstance(y, np.ndarray) and y.dtype == bool:
            y = y.astype(np.uint8)
        if x.dtype == bool:
            x = x.astype(np.uint8)
        if not isinstance(o, Tensor) and not isinstance(y, np.ndarray):
            # a Python number does not change the type of a tensor, apart from an integer one meeting a float
            y = np.asarray(y, dtype=x.dtype) if x.dtype in FLOATS or not isinstance(y, (float, np.floating)) else np.asarray(y, dtype=np.float32)
        with np.errstate(all="ignore"):
            r = f(y, x) if reflected else f(x, y)
        r = np.asarray(r)
        if r.dtype == np.float64 and np.float64 not in (x.dtype, getattr(y, "dtype", None)):
            r = r.astype(np.float32)
        return Tensor(r)
    return op


def div(x, y):
    if x.dtype in FLOATS or y.dtype in FLOATS:
        return np.true_divide(x, y)
    return np.trunc(np.true_divide(x, y)).astype(np.int64)      # integers divide to integers


def cmpop(f):
    def op(self, o):
        return Tensor(np.asarray(f(self.a, arr(o))))
    return op


def logic(f):
    def op(self, o):
        x, y = self.a, arr(o)
        return Tensor(np.asarray(f(x, y)))
    return op


class Tensor:
    __array_priority__ = 1000

    def __init__(self, *s):
        if len(s) == 1 and isinstance(s[0], np.ndarray):
            self.a = s[0]
        elif len(s) == 1 and isinstance(s[0], Tensor):
            self.a = s[0].a
        elif all(isinstance(x, int) for x in s) and s:
            self.a = np.zeros(s, np.float32)
        else:
            self.a = np.asarray(s[0] if s else [])
            if type(self) is Tensor and self.a.dtype == np.float64:
                self.a = self.a.astype(np.float32)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("tensor operation %s" % name)

    # ---- shape and type
    shape = property(lambda s: Size(s.a.shape))
    dtype = property(lambda s: s.a.dtype)
    data = property(lambda s: s)
    T = property(lambda s: Tensor(s.a.T))
    ndim = property(lambda s: s.a.ndim)
    is_cuda = property(lambda s: False)
    device = property(lambda s: "cpu")
    requires_grad = False
    grad = None

    def size(self, d=None):
        return Size(self.a.shape) if d is None else self.a.shape[d]

    def dim(self):
        return self.a.ndim

    ndimension = dim

    def numel(self):
        return int(self.a.size)

    nelement = numel

    def __len__(self):
        return len(self.a)

    def type(self, t=None):
        if t is None:
            return "torch.%sTensor" % ("Long" if self.a.dtype == np.int64 else "Float")
        return self.to(t)

    def to(self, *args, **k):
        t = k.get("dtype")
        for x in args:
            if isinstance(x, str) and x.split(":")[0] in ("cpu", "cuda"):
                continue
            t = x
        if t is None:
            return self
        if isinstance(t, Tensor):
            t = t.a.dtype
        return Tensor(self.a.astype(np_type(t)))

    def type_as(self, o):
        return Tensor(self.a.astype(o.a.dtype))

    def float(self):
        return Tensor(self.a.astype(np.float32))

    def double(self):
        return Tensor(self.a.astype(np.float64))

    def long(self):
        return Tensor(self.a.astype(np.int64))

    def int(self):
        return Tensor(self.a.astype(np.int32))

    def bool(self):
        return Tensor(self.a.astype(bool))

    def byte(self):
        return Tensor(self.a.astype(np.uint8))

    def numpy(self):
        return self.a.copy()

    def __array__(self, dtype=None, copy=None):
        return self.a if dtype is None else self.a.astype(dtype)

    def tolist(self):
        return self.a.tolist()

    def item(self):
        return self.a.item()

    def __float__(self):
        return builtins.float(self.a.item())

    def __int__(self):
        return builtins.int(self.a.item())

    def __index__(self):
        return builtins.int(self.a.item())

    def __bool__(self):
        return builtins.bool(self.a.item())

    def __repr__(self):
        return "tensor(%s)" % (self.a.tolist(),)

    def __format__(self, f):
        return format(self.a.item(), f) if self.a.size == 1 else format(repr(self), f)

    def __hash__(self):
        return id(self)

    def __iter__(self):
        for i in range(len(self.a)):
            yield Tensor(np.asarray(self.a[i]))

    def cpu(self):
        return self

    def cuda(self, *a, **k):
        return self

    def detach(self):
        return self

    def contiguous(self):
        return self

    def requires_grad_(self, *a):
        return self

    def clone(self):
        return Tensor(self.a.copy())

    def copy_(self, o):
        self.a[...] = arr(o)
        return self

    # ---- indexing
    def __getitem__(self, k):
        return Tensor(np.asarray(self.a[unw(k)]))

    def __setitem__(self, k, v):
        v = arr(v)
        self.a[unw(k)] = v

    def gather(self, dim, index):
        # torch only asks that the index is not larger than the tensor in the other dimensions
        i = arr(index)
        d = dim % self.a.ndim
        if i.dtype.kind != "i":
            raise RuntimeError("gather with an index that is not of integers")
        x = self.a[tuple(slice(None) if q == d else slice(0, i.shape[q]) for q in range(i.ndim))]
        return Tensor(np.take_along_axis(x, i, axis=d))

    def index_select(self, dim, index):
        return Tensor(np.take(self.a, arr(index), axis=dim))

    def masked_fill(self, mask, v):
        a = self.a.copy()
        a[arr(mask).astype(builtins.bool)] = v
        return Tensor(a)

    def masked_fill_(self, mask, v):
        self.a[arr(mask).astype(builtins.bool)] = v
        return self

    def masked_select(self, mask):
        return Tensor(self.a[arr(mask).astype(builtins.bool)])

    def nonzero(self, *a, **k):
        return Tensor(np.argwhere(self.a))

    def fill_(self, v):
        self.a[...] = v
        return self

    def zero_(self):
        return self.fill_(0)

    def scatter_(self, dim, index, src):
        np.put_along_axis(self.a, arr(index), arr(src), axis=dim)
        return self

    def scatter(self, dim, index, src):
        return self.clone().scatter_(dim, index, src)

    # ---- form
    def view(self, *s):
        if len(s) == 1 and isinstance(s[0], Tensor):
            s = s[0].shape
            return Tensor(self.a.reshape(s))
        return Tensor(self.a.reshape(sizes(s)))

    reshape = view

    def view_as(self, o):
        return Tensor(self.a.reshape(o.a.shape))

    def flatten(self, start_dim=0, end_dim=-1):
        s = self.a.shape
        e = end_dim % max(len(s), 1)
        return Tensor(self.a.reshape(s[:start_dim] + (-1,) + s[e + 1:]))

    def ravel(self):
        return self.flatten()

    def unsqueeze(self, dim):
        return Tensor(np.expand_dims(self.a, dim))

    def squeeze(self, dim=None):
        if dim is None:
            return Tensor(self.a.squeeze())
        return Tensor(self.a.squeeze(dim)) if self.a.shape[dim] == 1 else self

    def transpose(self, x, y):
        return Tensor(np.swapaxes(self.a, x, y))

    def t(self):
        return Tensor(self.a.T)

    def permute(self, *p):
        return Tensor(self.a.transpose(sizes(p)))

    def expand(self, *s):
        s = sizes(s)
        own = (1,) * (len(s) - self.a.ndim) + self.a.shape
        return Tensor(np.broadcast_to(self.a, tuple(o if x == -1 else x for x, o in zip(s, own))))

    def expand_as(self, o):
        return Tensor(np.broadcast_to(self.a, o.a.shape))

    def repeat(self, *s):
        return Tensor(np.tile(self.a, sizes(s)))

    def chunk(self, n, dim=0):
        return tuple(Tensor(x) for x in np.array_split(self.a, n, axis=dim))

    def split(self, n, dim=0):
        return tuple(Tensor(x) for x in np.split(self.a, range(n, self.a.shape[dim], n), axis=dim))

    def unbind(self, dim=0):
        return tuple(Tensor(x) for x in np.moveaxis(self.a, dim, 0))

    def narrow(self, dim, start, length):
        return Tensor(np.take(self.a, range(start, start + length), axis=dim))

    select = lambda self, dim, k: Tensor(np.take(self.a, k, axis=dim))
    flip = lambda self, *d: Tensor(np.flip(self.a, sizes(d)))
    triu = lambda self, k=0: Tensor(np.triu(self.a, k))
    tril = lambda self, k=0: Tensor(np.tril(self.a, k))
    diag = lambda self, k=0: Tensor(np.diag(self.a, k))

    # ---- reductions
    def sum(self, dim=None, keepdim=False, dtype=None, axis=None):
        a = self.a.astype(np.int64) if self.a.dtype in (np.bool_, np.uint8, np.int32) else self.a
        dim = axis if dim is None else dim
        r = a.sum(axis=tuple(dim) if isinstance(dim, list) else dim, keepdims=keepdim)
        return Tensor(np.asarray(r if dtype is None else r.astype(np_type(dtype))))

    def mean(self, dim=None, keepdim=False, axis=None):
        dim = axis if dim is None else dim
        return Tensor(np.asarray(self.a.mean(axis=tuple(dim) if isinstance(dim, list) else dim, keepdims=keepdim)))

    def var(self, dim=None, unbiased=True, keepdim=False):
        return Tensor(np.asarray(self.a.var(axis=dim, ddof=1 if unbiased else 0, keepdims=keepdim)))

    def std(self, dim=None, unbiased=True, keepdim=False):
        return Tensor(np.asarray(self.a.std(axis=dim, ddof=1 if unbiased else 0, keepdims=keepdim)))

    def prod(self, dim=None, keepdim=False):
        return Tensor(np.asarray(self.a.prod(axis=dim, keepdims=keepdim)))

    def cumsum(self, dim):
        return Tensor(self.a.cumsum(axis=dim))

    def cumprod(self, dim):
        return Tensor(self.a.cumprod(axis=dim))

    def _ext(self, f, g, dim, keepdim):
        if isinstance(dim, Tensor):
            return Tensor((np.maximum if f == "max" else np.minimum)(self.a, dim.a))
        if dim is None:
            return Tensor(np.asarray(getattr(self.a, f)()))
        i = getattr(self.a, g)(axis=dim)
        v = getattr(self.a, f)(axis=dim)
        if keepdim:
            i, v = np.expand_dims(i, dim), np.expand_dims(v, dim)
        return Pair((Tensor(np.asarray(v)), Tensor(np.asarray(i))))

    def max(self, dim=None, keepdim=False):
        return self._ext("max", "argmax", dim, keepdim)

    def min(self, dim=None, keepdim=False):
        return self._ext("min", "argmin", dim, keepdim)

    def argmax(self, dim=None, keepdim=False):
        r = self.a.argmax(axis=dim)
        return Tensor(np.asarray(np.expand_dims(r, dim) if keepdim else r))

    def argmin(self, dim=None, keepdim=False):
        r = self.a.argmin(axis=dim)
        return Tensor(np.asarray(np.expand_dims(r, dim) if keepdim else r))

    def all(self, dim=None):
        return Tensor(np.asarray(self.a.all(axis=dim)))

    def any(self, dim=None):
        return Tensor(np.asarray(self.a.any(axis=dim)))

    def norm(self, p=2, dim=None, keepdim=False):
        return Tensor(np.asarray((np.abs(self.a) ** p).sum(axis=dim, keepdims=keepdim) ** (1.0 / p)))

    # ties: the first one comes first (any order is allowed)
    def topk(self, k, dim=-1, largest=True, sorted=True):
        o = np.argsort(-self.a if largest else self.a, axis=dim, kind="stable")
        o = np.take(o, range(k), axis=dim)
        return Pair((Tensor(np.take_along_axis(self.a, o, axis=dim)), Tensor(o)))

    def sort(self, dim=-1, descending=False):
        o = np.argsort(-self.a if descending else self.a, axis=dim, kind="stable")
        return Pair((Tensor(np.take_along_axis(self.a, o, axis=dim)), Tensor(o)))

    def argsort(self, dim=-1, descending=False):
        return self.sort(dim, descending)[1]

    def equal(self, o):
        return builtins.bool(np.array_equal(self.a, arr(o)))

    # ---- arithmetic
    __add__ = binop(lambda x, y: x + y)
    __radd__ = binop(lambda x, y: x + y, True)
    __sub__ = binop(lambda x, y: x - y)
    __rsub__ = binop(lambda x, y: x - y, True)
    __mul__ = binop(lambda x, y: x * y)
    __rmul__ = binop(lambda x, y: x * y, True)
    __truediv__ = binop(div)
    __rtruediv__ = binop(div, True)
    __floordiv__ = binop(lambda x, y: x // y)
    __mod__ = binop(lambda x, y: x % y)
    __pow__ = binop(lambda x, y: x ** y)
    __rpow__ = binop(lambda x, y: x ** y, True)
    __lt__ = cmpop(lambda x, y: x < y)
    __le__ = cmpop(lambda x, y: x <= y)
    __gt__ = cmpop(lambda x, y: x > y)
    __ge__ = cmpop(lambda x, y: x >= y)
    __eq__ = cmpop(lambda x, y: x == y)
    __ne__ = cmpop(lambda x, y: x != y)
    __and__ = logic(lambda x, y: x & y)
    __or__ = logic(lambda x, y: x | y)
    __xor__ = logic(lambda x, y: x ^ y)
    add, sub, mul, div, pow, fmod = __add__, __sub__, __mul__, __truediv__, __pow__, __mod__
    lt, le, gt, ge, eq, ne = __lt__, __le__, __gt__, __ge__, __eq__, __ne__

    def __neg__(self):
        return Tensor(-self.a)

    def __invert__(self):
        return Tensor(~self.a if self.a.dtype == builtins.bool else 1 - self.a)

    def __abs__(self):
        return Tensor(np.abs(self.a))

    def __matmul__(self, o):
        return Tensor(self.a @ arr(o))

    matmul = mm = bmm = __matmul__

    def _inplace(self, r):
        self.a[...] = r.a
        return self

    def __iadd__(self, o):
        return self._inplace(self + o)

    def __isub__(self, o):
        return self._inplace(self - o)

    def __imul__(self, o):
        return self._inplace(self * o)

    def __itruediv__(self, o):
        return self._inplace(self / o)

    add_, sub_, mul_, div_ = __iadd__, __isub__, __imul__, __itruediv__

    def clamp(self, min=None, max=None):
        return Tensor(np.clip(self.a, min, max))

    def backward(self, *a, **k):
        raise Unsupported("backward")


def _unary(f):
    def op(x, *a, **k):
        with np.errstate(all="ignore"):
            r = np.asarray(f(arr(x)))
        return Tensor(r.astype(arr(x).dtype) if arr(x).dtype in FLOATS else r.astype(np.float32))
    return op


def np_softmax(a, axis=-1):
    a = a - a.max(axis=axis, keepdims=True)
    e = np.exp(a)
    return e / e.sum(axis=axis, keepdims=True)


def np_log_softmax(a, axis=-1):
    with np.errstate(all="ignore"):
        a = a - a.max(axis=axis, keepdims=True)
        return a - np.log(np.exp(a).sum(axis=axis, keepdims=True))


UNARY = dict(sigmoid=_unary(lambda a: 1 / (1 + np.exp(-a))), relu=_unary(lambda a: np.maximum(a, 0)), tanh=_unary(np.tanh), exp=_unary(np.exp), log=_unary(np.log), sqrt=_unary(np.sqrt))
for _n, _f in UNARY.items():
    setattr(Tensor, _n, _f)
Tensor.abs = lambda s: Tensor(np.abs(s.a))
Tensor.softmax = lambda s, dim=None: Tensor(np_softmax(s.a, dim))
Tensor.log_softmax = lambda s, dim=None: Tensor(np_log_softmax(s.a, dim))


class Size(tuple):
    def numel(self):
        return int(np.prod(self))


class Pair(tuple):
    values = property(lambda s: s[0])
    indices = property(lambda s: s[1])


def tensor_type(name, np_):
    class X(Tensor):
        np = np_

        def __init__(self, *s):
            if s and all(isinstance(x, int) for x in s):
                self.a = np.zeros(s, np_)
            else:
                self.a = np.array(arr(s[0]) if s else [], dtype=np_) if not (s and isinstance(s[0], (list, tuple)) and any(isinstance(x, Tensor) for x in s[0])) else np.array([x.a for x in s[0]], dtype=np_)

        def __new__(cls, *s):
            t = object.__new__(cls)
            return t
    X.__name__ = X.__qualname__ = name
    return X


FloatTensor = tensor_type("FloatTensor", np.float32)
DoubleTensor = tensor_type("DoubleTensor", np.float64)
LongTensor = tensor_type("LongTensor", np.int64)
IntTensor = tensor_type("IntTensor", np.int32)
ByteTensor = tensor_type("ByteTensor", np.uint8)
BoolTensor = tensor_type("BoolTensor", np.bool_)
TYPES = {"torch.FloatTensor": np.float32, "torch.LongTensor": np.int64, "torch.DoubleTensor": np.float64}


def np_type(t):
    if hasattr(t, "np"):
        return t.np
    if isinstance(t, str):
        return TYPES[t]
    if t is float:
        return np.float32
    if t is int:
        return np.int64
    return t


# ---------------------------------------------------------------- layers; their parameters are set by the harness
class Module:
    training = True

    def __init__(self):
        pass

    def __call__(self, *a, **k):
        return self.forward(*a, **k)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise AttributeError("'%s' has no attribute '%s'" % (type(self).__name__, name))

    def children(self):
        return [x for x in self.__dict__.values() if isinstance(x, Module)]

    def modules(self):
        yield self
        for c in self.children():
            yield from c.modules()

    def parameters(self):
        return [p for m in self.modules() for p in m.__dict__.values() if isinstance(p, Parameter)]

    def add_module(self, name, m):
        setattr(self, name, m)

    def eval(self):
        return self.train(False)

    def train(self, mode=True):
        for m in self.modules():
            m.__dict__["training"] = mode
        return self

    def cuda(self, *a):
        return self

    def to(self, *a, **k):
        return self

    def cpu(self):
        return self

    def apply(self, f):
        for m in self.modules():
            f(m)
        return self

    def zero_grad(self):
        pass

    def named_children(self):
        return [(k, x) for k, x in self.__dict__.items() if isinstance(x, Module)]

    def tensors(self, prefix=""):
        """(name, owner, key in the owner) of the parameters and of the statistics that are kept with them"""
        for k, x in list(self.__dict__.items()):
            if isinstance(x, Parameter):
                yield prefix + k, self, k
        for k, x in self.buffers_().items():
            yield prefix + k, self, x
        for k, c in self.named_children():
            yield from c.tensors(prefix + k + ".")

    def buffers_(self):
        return {}

    def named_parameters(self, prefix="", recurse=True):
        return [(n, o.__dict__[k]) for n, o, k in self.tensors(prefix) if isinstance(o.__dict__[k], Parameter)]

    def state_dict(self, *a, **k):
        return {n: np.array(arr(o.__dict__[q])) for n, o, q in self.tensors()}

    def load_state_dict(self, d, strict=True):
        mine = {n: (o, q) for n, o, q in self.tensors()}
        if strict and set(mine) != set(d):
            raise RuntimeError("missing keys %s, unexpected keys %s" % (sorted(set(mine) - set(d))[:5], sorted(set(d) - set(mine))[:5]))
        for n, (o, q) in mine.items():
            if n in d:
                v = arr(d[n])
                if v.shape != arr(o.__dict__[q]).shape:
                    raise RuntimeError("size mismatch for %s: %s instead of %s" % (n, v.shape, arr(o.__dict__[q]).shape))
                o.__dict__[q] = Parameter(np.array(v, dtype=np.float64)) if isinstance(o.__dict__[q], Parameter) else np.array(v)


class Parameter(Tensor):
    pass


WEIGHTS = [None]        # the harness puts here a function (shape, index of the parameter) -> array


def make(shape, kind):
    f = WEIGHTS[0]
    return Parameter(np.asarray(f(shape, kind), dtype=np.float64) if f else np.zeros(shape))


class Linear(Module):
    def __init__(self, i, o, bias=True):
        self.in_features, self.out_features = i, o
        self.weight = make((o, i), "weight")
        self.bias = make((o,), "bias") if bias else None

    def forward(self, x):
        if x.a.shape[-1] != self.in_features:
            raise RuntimeError("size mismatch: %s for a layer of %d inputs" % (x.a.shape, self.in_features))
        y = x.a @ self.weight.a.T
        return Tensor(y + self.bias.a if self.bias is not None else y)


class Embedding(Module):
    def __init__(self, n, d, **k):
        self.num_embeddings = n
        self.weight = make((n, d), "embedding")

    def forward(self, x):
        if x.a.dtype.kind not in "iu":
            raise RuntimeError("an embedding of what are not integers")
        if x.a.size and (x.a.min() < 0 or x.a.max() >= self.num_embeddings):
            raise RuntimeError("index out of range")
        return Tensor(self.weight.a[x.a])


class _BatchNorm(Module):
    dims = ()

    def __init__(self, n, eps=1e-5, momentum=0.1, affine=True, track_running_stats=True):
        self.n, self.eps, self.track = n, eps, track_running_stats
        self.weight, self.bias = (make((n,), "scale"), make((n,), "shift")) if affine else (None, None)
        self.mean, self.var = np.zeros(n), np.ones(n)
        self.momentum = momentum

    def buffers_(self):
        return {"running_mean": "mean", "running_var": "var"} if self.track else {}

    def forward(self, x):
        a = x.a
        if a.ndim not in self.dims or a.shape[1] != self.n:
            raise RuntimeError("batch normalisation of %d channels on a tensor of shape %s" % (self.n, a.shape))
        ax = tuple(i for i in range(a.ndim) if i != 1)
        sh = (1, -1) + (1,) * (a.ndim - 2)
        if self.training or not self.track:
            m, v = a.mean(axis=ax), a.var(axis=ax)
            if self.track:
                k = a.size / a.shape[1]
                self.mean = (1 - self.momentum) * self.mean + self.momentum * m
                self.var = (1 - self.momentum) * self.var + self.momentum * v * k / max(k - 1, 1)
        else:
            m, v = self.mean, self.var
        y = (a - m.reshape(sh)) / np.sqrt(v.reshape(sh) + self.eps)
        if self.weight is not None:
            y = y * self.weight.a.reshape(sh) + self.bias.a.reshape(sh)
        return Tensor(y)


class BatchNorm1d(_BatchNorm):
    dims = (2, 3)


class BatchNorm2d(_BatchNorm):
    dims = (4,)


class ModuleList(Module):
    def __init__(self, l=()):
        self.l = list(l)

    def modules(self):
        yield self
        for c in self.l:
            yield from c.modules()

    def named_children(self):
        return [(str(k), c) for k, c in enumerate(self.l)]

    def append(self, m):
        self.l.append(m)
        return self

    def extend(self, ms):
        self.l.extend(ms)
        return self

    def __len__(self):
        return len(self.l)

    def __iter__(self):
        return iter(self.l)

    def __getitem__(self, k):
        return self.l[k]


class DataParallel(Module):
    """a wrapper: the names of the parameters begin with "module.", everything else is that of the module"""
    def __init__(self, module, *a, **k):
        self.module = module

    def forward(self, *a, **k):
        return self.module.forward(*a, **k)

    def train(self, mode=True):
        if isinstance(self.module, Module):
            self.module.train(mode)
        elif not mode:
            self.module.eval()
        return self

    def load_state_dict(self, d, strict=True):
        if isinstance(self.module, Module):
            return Module.load_state_dict(self, d, strict)
        return self.module.load_state_dict(d)


class Sequential(ModuleList):
    def __init__(self, *l):
        self.l = list(l)

    def forward(self, x):
        for m in self.l:
            x = m(x)
        return x


class Fn(Module):
    f = None

    def __init__(self, *a, **k):
        pass

    def forward(self, x):
        return type(self).f(x)


def nll(y, target, weight=None, reduction="mean", size_average=None, **k):
    """-sum w[t] y[t] / sum w[t] over all positions; classes are the second dimension"""
    y, t = y.a, arr(target)
    if y.ndim != t.ndim + 1 or y.shape[0] != t.shape[0] or y.shape[2:] != t.shape[1:]:
        raise RuntimeError("the loss got predictions of shape %s for targets of shape %s" % (y.shape, t.shape))
    w = np.ones(y.shape[1]) if weight is None else arr(weight).astype(np.float64)
    p = np.take_along_axis(y, np.expand_dims(t, 1), axis=1)[:, 0]
    wt = w[t]
    if reduction == "none":
        return Tensor(-wt * p)
    s = -(wt * p).sum()
    return Tensor(np.asarray(s if reduction == "sum" or size_average is False else s / wt.sum()))


class NLLLoss(Module):
    def __init__(self, weight=None, size_average=None, reduction="mean", **k):
        self.weight, self.size_average, self.reduction = weight, size_average, reduction

    def forward(self, y, t):
        return nll(y, t, self.weight, self.reduction, self.size_average)


class CrossEntropyLoss(NLLLoss):
    def forward(self, y, t):
        return nll(Tensor(np_log_softmax(y.a, 1)), t, self.weight, self.reduction, self.size_average)


class Lib(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("%s.%s" % (self.__name__, name))


def lib(name, **kw):
    m = Lib(name)
    m.__dict__.update(kw)
    sys.modules[name] = m
    return m


def install(**over):
    """puts the stand-in in the place of torch"""
    F = lib("torch.nn.functional", softmax=lambda y, dim=None, **k: Tensor(np_softmax(y.a, dim)), log_softmax=lambda y, dim=None, **k: Tensor(np_log_softmax(y.a, dim)), nll_loss=nll,
            cross_entropy=lambda y, t, weight=None, **k: nll(Tensor(np_log_softmax(y.a, 1)), t, weight, **k), linear=lambda x, w, b=None: Tensor(x.a @ w.a.T + (0 if b is None else b.a)), **UNARY)
    nn = lib("torch.nn", functional=F, Module=Module, Linear=Linear, Embedding=Embedding, BatchNorm1d=BatchNorm1d, BatchNorm2d=BatchNorm2d, ModuleList=ModuleList, Sequential=Sequential,
             NLLLoss=NLLLoss, CrossEntropyLoss=CrossEntropyLoss, Parameter=Parameter, DataParallel=DataParallel,
             ReLU=type("ReLU", (Fn,), {"f": staticmethod(UNARY["relu"])}), Sigmoid=type("Sigmoid", (Fn,), {"f": staticmethod(UNARY["sigmoid"])}))
    ag = lib("torch.autograd", Variable=lambda x, **k: x)
    cuda = lib("torch.cuda", is_available=lambda: False, FloatTensor=FloatTensor, LongTensor=LongTensor, manual_seed=lambda s: None, manual_seed_all=lambda s: None)

    def of(f):
        def g(*s, **k):
            t = np_type(k.get("dtype", np.float32))
            return Tensor(f(sizes(s), t))
        return g

    def like(f):
        return lambda x, **k: Tensor(f(x.a, dtype=np_type(k["dtype"]) if "dtype" in k else None))

    def arange(*s, **k):
        s = [arr(x) for x in s]
        t = k.get("dtype")
        r = np.arange(*s)
        return Tensor(r.astype(np_type(t)) if t else r)

    def red(name):
        return lambda x, *a, **k: getattr(x, name)(*a, **k)
    d = dict(nn=nn, autograd=ag, cuda=cuda, Tensor=FloatTensor_or_Tensor, FloatTensor=FloatTensor, DoubleTensor=DoubleTensor, LongTensor=LongTensor, IntTensor=IntTensor, ByteTensor=ByteTensor, BoolTensor=BoolTensor,
             float=np.float32, float32=np.float32, float64=np.float64, double=np.float64, long=np.int64, int64=np.int64, int=np.int32, int32=np.int32, bool=np.bool_, uint8=np.uint8,
             no_grad=contextlib.nullcontext, manual_seed=lambda s: None, Size=Size, device=lambda s: s, is_tensor=lambda x: isinstance(x, Tensor),
             zeros=of(np.zeros), ones=of(np.ones), empty=of(np.zeros), zeros_like=like(np.zeros_like), ones_like=like(np.ones_like), full=lambda s, v, **k: Tensor(np.full(sizes((s,)), v, dtype=np_type(k.get("dtype", np.float32)))),
             full_like=lambda x, v, **k: Tensor(np.full_like(x.a, v)), arange=arange, eye=lambda n, *a, **k: Tensor(np.eye(n, dtype=np_type(k.get("dtype", np.float32)))),
             cat=lambda ts, dim=0, **k: Tensor(np.concatenate([x.a for x in ts], axis=dim)), stack=lambda ts, dim=0: Tensor(np.stack([x.a for x in ts], axis=dim)),
             from_numpy=lambda a: Tensor(a), as_tensor=lambda a, dtype=None, **k: tensor(a, dtype), tensor=lambda a, dtype=None, **k: tensor(a, dtype),
             eq=lambda x, y: x == y, ne=lambda x, y: x != y, lt=lambda x, y: x < y, gt=lambda x, y: x > y, le=lambda x, y: x <= y, ge=lambda x, y: x >= y,
             add=lambda x, y: x + y, mul=lambda x, y: x * y, sub=lambda x, y: x - y, matmul=lambda x, y: x @ y, mm=lambda x, y: x @ y, bmm=lambda x, y: x @ y, pow=lambda x, y: x ** y,
             div=lambda x, y, rounding_mode=None: (x / y) if rounding_mode is None else (x // y), floor_divide=lambda x, y: x // y, true_divide=lambda x, y: Tensor(np.true_divide(arr(x), arr(y)).astype(np.float32)),
             remainder=lambda x, y: x % y, fmod=lambda x, y: x % y, abs=lambda x: Tensor(np.abs(x.a)), where=lambda c, x, y: Tensor(np.where(arr(c), arr(x), arr(y))), clamp=lambda x, *a, **k: x.clamp(*a, **k),
             gather=lambda x, dim, index: x.gather(dim, index), softmax=lambda x, dim=None: x.softmax(dim), log_softmax=lambda x, dim=None: x.log_softmax(dim), floor=lambda x: Tensor(np.floor(x.a)),
             isnan=lambda x: Tensor(np.isnan(x.a)), save=lambda *a, **k: None, load=lambda *a, **k: {"model_state_dict": {}}, numel=lambda x: x.numel(), flatten=lambda x, *a, **k: x.flatten(*a, **k))
    for n in ("sum", "mean", "std", "var", "prod", "max", "min", "argmax", "argmin", "all", "any", "norm", "topk", "sort", "argsort", "cumsum", "cumprod", "squeeze", "unsqueeze", "transpose", "t", "chunk", "split",
              "unbind", "index_select", "masked_select", "nonzero", "equal", "triu", "tril", "diag", "reshape"):
        d[n] = red(n)
    d.update(UNARY)
    d.update(over)
    t = lib("torch", **d)
    t.__version__ = "0.4.1"
    return t


def tensor(a, dtype=None):
    a = np.array(arr(a))
    if dtype is not None:
        return Tensor(a.astype(np_type(dtype)))
    return Tensor(a.astype(np.float32) if a.dtype == np.float64 else a)


FloatTensor_or_Tensor = Tensor
