"""Abstract interpreter: propagates value numbers through the syntax tree of /repo/src.

The program is never imported or executed.  Each function body is interpreted once over abstract states (heap of
abstract objects + scopes holding value numbers); at every control-flow join the two incoming states are merged
with gated joins, loops with a statically known trip count are unrolled and all others are summarised by
induction variables (scalar evolution) and loop-carried unknowns.  Anything the analysis does not model raises
``Unsupported`` -- it is never guessed.
"""
from __future__ import annotations

import ast
import math
import os
import time
from fractions import Fraction as F

from . import dag as D
from .alg import E_CONST, PI
from .dag import C, N


class OutOfTime(BaseException):
    """the time given to this part of the analysis is used up"""


DEADLINE = [None]


def tick():
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        raise OutOfTime()


class Unsupported(Exception):
    pass


class Raised(Exception):
    """the analysed code raises on this (joined) state"""

    def __init__(self, exc, st=None, msg=""):
        super().__init__(exc)
        self.exc, self.st, self.msg = exc, st, msg


# ------------------------------------------------------------------ values
class Ref:
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(("ref", self.id))

    def __repr__(self):
        return "Ref(%d)" % self.id


class Phi:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class _Unbound:
    def __repr__(self):
        return "UNBOUND"


UNBOUND = _Unbound()


class SymStr:
    def __init__(self, name, domain=None):
        self.name, self.domain = name, domain


class Opaque:
    """value about which nothing is known and which no rule needs (formatted text, type hints, ...)"""

    def __init__(self, what):
        self.what = what


class ClassVal:
    def __init__(self, name, qual, bases, objid, module):
        self.name, self.qual, self.bases, self.objid, self.module = name, qual, bases, objid, module
        self.dataclass = None

    def mro(self):
        bs = [b for b in self.bases if isinstance(b, ClassVal)]
        if len(bs) == 0:
            return [self]
        if len(bs) == 1:
            return [self] + bs[0].mro()
        seqs = [b.mro() for b in bs] + [list(bs)]
        out = [self]
        while any(seqs):
            for q in seqs:
                if q and not any(q[0] in r[1:] for r in seqs):
                    h = q[0]
                    break
            else:
                raise Unsupported("class order of " + self.name)
            out.append(h)
            seqs = [[x for x in r if x is not h] for r in seqs]
        return out

    def __repr__(self):
        return "<class %s>" % self.qual


class FuncVal:
    def __init__(self, node, qual, module, closure, defaults, kwdefaults, kind="plain", cls=None):
        self.node, self.qual, self.module, self.closure = node, qual, module, closure
        self.defaults, self.kwdefaults, self.kind, self.cls = defaults, kwdefaults, kind, cls
        self.setter = None
        self.file = module.file if module else "?"


class EnumVal:
    """a member of an enumeration"""
    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value


class Leave(ast.stmt):
    """what is left to run when a with block ends: a statement list in its own frame, or a function of the state"""
    _fields = ()


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Builtin:
    def __init__(self, name, fn=None):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<builtin %s>" % self.name


class ModuleVal:
    def __init__(self, name, file, objid):
        self.name, self.file, self.objid = name, file, objid


class Super:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class SymKey:
    """a number that is not a constant, as a dictionary key"""

    def __init__(self, node):
        self.node = node

    def __eq__(self, o):
        return isinstance(o, SymKey) and o.node is self.node

    def __hash__(self):
        return hash(("symkey", self.node.id))


# what functools.lru_cache does to a function: results are kept by argument (objects by identity)
REMEMBER = """
def remember(f):
    kept = {}
    def remembered(*args, **kw):
        key = (args, tuple(kw.items()))
        if key not in kept:
            kept[key] = f(*args, **kw)
        return kept[key]
    return remembered
"""


class Managed:
    """a call of a function decorated as a context manager, not yet entered"""
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


def yields(n):
    """whether a statement yields"""
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            stack.extend(ast.iter_child_nodes(x))
    return False


class Lazy(tuple):
    """what an iterator will still give; becomes an object once it is kept"""


class Some:
    """elements of a filtered comprehension: (condition, value) pairs"""

    def __init__(self, items):
        self.items = items


class Endless:
    """an iterator without end"""

    def __init__(self, nth):
        self.nth = nth


class AttrDict:
    """the attributes of an object, as a dictionary"""

    def __init__(self, ref):
        self.ref = ref


# library classes that are plain data structures, in the language itself
SHIMS = """
class SimpleNamespace:
    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

class nullcontext:
    def __init__(self, enter_result=None):
        self.enter_result = enter_result
    def __enter__(self):
        return self.enter_result
    def __exit__(self, a, b, c):
        return None

class ExitStack:
    def __init__(self):
        self.todo = []
    def __enter__(self):
        return self
    def callback(self, f, *args, **kw):
        self.todo.append((f, args, kw))
        return f
    def enter_context(self, m):
        r = m.__enter__()
        self.todo.append((m.__exit__, (None, None, None), {}))
        return r
    def __exit__(self, a, b, c):
        for f, args, kw in reversed(self.todo):
            f(*args, **kw)
        return None
    def close(self):
        self.__exit__(None, None, None)

class defaultdict:
    def __init__(self, default_factory=None, *a, **kw):
        self.default_factory = default_factory
        self.kept = dict(*a, **kw)
    def __getitem__(self, k):
        if k not in self.kept:
            self.kept[k] = self.default_factory()
        return self.kept[k]
    def __setitem__(self, k, v):
        self.kept[k] = v
    def __contains__(self, k):
        return k in self.kept
    def __iter__(self):
        return iter(self.kept)
    def __len__(self):
        return len(self.kept)
    def get(self, k, d=None):
        return self.kept.get(k, d)
    def items(self):
        return self.kept.items()
    def keys(self):
        return self.kept.keys()
    def values(self):
        return self.kept.values()
    def pop(self, *a):
        return self.kept.pop(*a)
    def setdefault(self, k, d=None):
        return self.kept.setdefault(k, d)
    def update(self, *a, **kw):
        self.kept.update(*a, **kw)
    def clear(self):
        self.kept.clear()

class deque:
    def __init__(self, items=(), maxlen=None):
        self.kept = []
        self.maxlen = maxlen
        self.extend(items)
    def append(self, x):
        self.kept.append(x)
        if self.maxlen is not None and len(self.kept) > self.maxlen:
            self.kept.pop(0)
    def appendleft(self, x):
        self.kept.insert(0, x)
        if self.maxlen is not None and len(self.kept) > self.maxlen:
            self.kept.pop()
    def extend(self, xs):
        for x in xs:
            self.append(x)
    def pop(self):
        return self.kept.pop()
    def popleft(self):
        return self.kept.pop(0)
    def rotate(self, n=1):
        for _ in range(n):
            self.kept.insert(0, self.kept.pop())
        for _ in range(-n):
            self.kept.append(self.kept.pop(0))
    def clear(self):
        self.kept.clear()
    def __getitem__(self, i):
        return self.kept[i]
    def __setitem__(self, i, v):
        self.kept[i] = v
    def __len__(self):
        return len(self.kept)
    def __iter__(self):
        return iter(self.kept)
    def __contains__(self, x):
        return x in self.kept

class ChainMap:
    def __init__(self, *maps):
        self.maps = list(maps)
    def __getitem__(self, k):
        for m in self.maps:
            if k in m:
                return m[k]
        raise KeyError(k)
    def __contains__(self, k):
        return any(k in m for m in self.maps)
    def get(self, k, d=None):
        for m in self.maps:
            if k in m:
                return m[k]
        return d

def Counter(xs=()):
    d = defaultdict(int)
    for x in xs:
        d[x] = d[x] + 1
    return d

def bisect_left(a, x, lo=0, hi=None, *, key=None):
    return sum((v if key is None else key(v)) < x for v in a)

def bisect_right(a, x, lo=0, hi=None, *, key=None):
    return sum((v if key is None else key(v)) <= x for v in a)

bisect = bisect_right
"""
SHIMMED = {
    "types.SimpleNamespace", "contextlib.nullcontext", "contextlib.ExitStack", "collections.defaultdict", "collections.deque",
    "collections.ChainMap", "collections.Counter", "bisect.bisect_left", "bisect.bisect_right", "bisect.bisect",
}


class SymRange:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class Partial:
    def __init__(self, f, args, kwargs):
        self.f, self.args, self.kwargs = f, args, kwargs


class ExcVal:
    def __init__(self, name, args=()):
        self.name, self.args = name, args


class Obj:
    __slots__ = ("kind", "cls", "f", "items", "origin")

    def __init__(self, kind, cls=None, f=None, items=None, origin=None):
        self.kind, self.cls, self.f, self.items, self.origin = kind, cls, f, items, origin

    def clone(self):
        return Obj(self.kind, self.cls, dict(self.f) if self.f is not None else None, list(self.items) if self.items is not None else None, self.origin)


class State:
    def __init__(self):
        self.heap = {}
        self.owned = set()
        self.pc = ()

    def fork(self, c=None):
        s = State()
        s.heap = dict(self.heap)
        self.owned = set()
        s.pc = self.pc + ((c,) if isinstance(c, C) else ())
        return s

    def adopt(self, o, pc=None):
        self.heap, self.owned = o.heap, o.owned
        self.pc = o.pc if pc is None else pc
        o.owned = set()
        if self.heap is o.heap and self is not o:
            self.heap = dict(o.heap)
        return self

    def get(self, i):
        return self.heap[i]

    def w(self, i):
        if i not in self.owned:
            self.heap[i] = self.heap[i].clone()
            self.owned.add(i)
        return self.heap[i]


class Out:
    __slots__ = ("next", "ret", "brk", "cont", "exc")

    def __init__(self):
        self.next = self.ret = self.brk = self.cont = self.exc = None


class Frame:
    def __init__(self, scope, closure, module, func=None, cls=None, locals_=None, self_=None):
        self.scope, self.closure, self.module, self.func, self.cls = scope, closure, module, func, cls
        self.locals, self.self_ = locals_, self_
        self.globals_decl = set()
        self.nonlocals = set()
        self.captured = False
        self.yields = None
        self.line = 0


class LoopInfo:
    def __init__(self, fr, line):
        self.func = fr.func.qual if fr.func else "<module>"
        self.file = fr.module.file if fr.module else "?"
        self.line = line
        self.mu = {}  # path -> (init, mu, next)
        self.induct = {}
        self.trip = None
        self.exit = None
        self.K = None
        self.breaks = None


MATH_CONST = {"pi": PI, "e": E_CONST, "tau": 2 * PI}
MATH_FN = {
    "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "sqrt", "log", "log10", "log2", "log1p", "exp", "expm1", "floor", "ceil", "fabs",
    "radians", "degrees", "hypot", "pow", "fmod", "copysign", "trunc", "modf", "isclose", "isnan", "isfinite", "isinf", "dist",
    "fsum", "prod", "cbrt", "remainder", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp2", "sumprod", "gcd", "factorial", "comb", "fma",
}
PYBUILTINS = {
    "abs", "min", "max", "sum", "len", "range", "enumerate", "zip", "map", "filter", "any", "all", "float", "int", "bool", "str", "repr",
    "print", "isinstance", "issubclass", "type", "getattr", "setattr", "hasattr", "list", "tuple", "dict", "set", "frozenset", "sorted", "reversed",
    "round", "divmod", "pow", "iter", "next", "object", "super", "callable", "id", "vars", "format", "hash", "property", "staticmethod",
    "classmethod", "NotImplemented", "slice", "complex", "ord", "chr", "delattr",
}
EXC_NAMES = {
    "Exception", "ValueError", "TypeError", "ZeroDivisionError", "ArithmeticError", "RuntimeError", "NotImplementedError", "KeyError", "IndexError",
    "AttributeError", "AssertionError", "LookupError", "OverflowError", "StopIteration", "BaseException", "UserWarning", "Warning",
    "DeprecationWarning", "NameError", "UnboundLocalError", "FloatingPointError", "RecursionError",
}
EXC_PARENT = {
    "ValueError": "Exception", "TypeError": "Exception", "ZeroDivisionError": "ArithmeticError", "OverflowError": "ArithmeticError",
    "FloatingPointError": "ArithmeticError", "ArithmeticError": "Exception", "RuntimeError": "Exception", "NotImplementedError": "RuntimeError",
    "RecursionError": "RuntimeError", "KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception",
    "AttributeError": "Exception", "AssertionError": "Exception", "StopIteration": "Exception", "NameError": "Exception",
    "UnboundLocalError": "NameError", "Exception": "BaseException",
}
BIN = {
    ast.Add: ("add", "__add__", "__radd__"), ast.Sub: ("sub", "__sub__", "__rsub__"), ast.Mult: ("mul", "__mul__", "__rmul__"),
    ast.Div: ("div", "__truediv__", "__rtruediv__"), ast.Pow: ("pow", "__pow__", "__rpow__"), ast.Mod: ("mod", "__mod__", "__rmod__"),
    ast.FloorDiv: ("floordiv", "__floordiv__", "__rfloordiv__"), ast.MatMult: ("matmul", "__matmul__", "__rmatmul__"),
    ast.BitAnd: ("band", "__and__", "__rand__"), ast.BitOr: ("bor", "__or__", "__ror__"), ast.BitXor: ("bxor", "__xor__", "__rxor__"),
    ast.LShift: ("shl", "__lshift__", "__rlshift__"), ast.RShift: ("shr", "__rshift__", "__rrshift__"),
}
CMP = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}
CMP_DUNDER = {"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__", "==": "__eq__", "!=": "__ne__"}
UNROLL = 400


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.id == b.id
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Phi) and isinstance(b, Phi):
        return a.c is b.c and same(a.a, b.a) and same(a.b, b.b)
    if isinstance(a, Bound) and isinstance(b, Bound):
        return a.func is b.func and same(a.self_, b.self_)
    if isinstance(a, SymStr) and isinstance(b, SymStr):
        return a.name == b.name
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    return False


def isbool(v):
    return isinstance(v, (bool, C))


def chosen(v):
    """the first condition choosing between constants in a bound, when everything in it is constant but for such choices"""
    if isinstance(v, C):
        if v.op == "sgn":
            return chosen(v.args[0])
        if v.op in ("and", "or", "not"):
            for x in v.args:
                q = chosen(x)
                if q is not None:
                    return q
        return None
    if not isinstance(v, N) or v.op == "const":
        return None
    found = []

    def flat(x):
        if x.op == "const":
            return True
        if x.op == "ite":
            found.append(x.args[0])
            return flat(x.args[1]) and flat(x.args[2])
        return x.op in ("add", "mul", "pow", "neg") and all(flat(y) for y in x.args if isinstance(y, N))

    return found[0] if flat(v) and found else None


def rotated(n):
    """a loop that is left by one test at its head has that test as its condition; simple assignments before it are peeled"""
    if hasattr(n, "osa_rotated"):
        return n.osa_rotated
    n.osa_rotated = n
    if not (isinstance(n.test, ast.Constant) and n.test.value) or n.orelse:
        return n
    k = 0
    while k < len(n.body) and isinstance(n.body[k], (ast.Assign, ast.AnnAssign)) and isinstance(getattr(n.body[k], "target", None) or n.body[k].targets[0], ast.Name) and not any(isinstance(y, ast.Call) for y in ast.walk(n.body[k])):
        k += 1
    if k == len(n.body):
        return n
    i = n.body[k]
    if not (isinstance(i, ast.If) and len(i.body) == 1 and isinstance(i.body[0], ast.Break)):
        return n
    rest = list(i.orelse) + n.body[k + 1 :]

    def jumps(b):
        for x in b:
            if isinstance(x, (ast.Break, ast.Continue)):
                yield x
            elif isinstance(x, (ast.For, ast.While)):
                yield from jumps(x.orelse)
            elif not isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                for f in ("body", "orelse", "finalbody"):
                    yield from jumps(getattr(x, f, []))
                for h in getattr(x, "handlers", []) + getattr(x, "cases", []):
                    yield from jumps(h.body)

    js = list(jumps(rest))
    if any(isinstance(x, ast.Break) for x in js) or (k and js) or not rest:
        return n
    w = ast.While(test=ast.UnaryOp(op=ast.Not(), operand=i.test), body=rest + n.body[:k], orelse=[])
    ast.copy_location(w, n)
    ast.copy_location(w.test, i.test)
    w.osa_rotated = w
    n.osa_rotated = n.body[:k] + [w] if k else w
    return n.osa_rotated


class Interp:
    def __init__(self, root, package="openspace"):
        self.root = root
        self.package = package
        self.next_id = 1
        self.modules = {}
        self.base = State()
        self.stubs = {}
        self.hazards = []
        self.raises = []
        self.loops = []
        self.calls = {}
        self.draws = {}
        self.depth = 0
        self.try_frames = []
        self.visited = set()
        self.files = {}
        self._locals = {}
        self.callstack = []
        self.call_edges = set()
        self.maxdepth = 80
        self.fresh_loops = 0
        self.pure_calls = []

    # -------------------------------------------------------- heap helpers
    def alloc(self, st, obj):
        i = self.next_id
        self.next_id += 1
        st.heap[i] = obj
        st.owned.add(i)
        return Ref(i)

    def new_list(self, st, items):
        return self.alloc(st, Obj("list", items=list(items)))

    def new_dict(self, st, d):
        return self.alloc(st, Obj("dict", f=dict(d)))

    def loc(self, fr):
        return "%s:%d" % (os.path.relpath(fr.module.file, self.root) if fr and fr.module and fr.module.file else "?", getattr(fr, "line", 0))

    def hazard(self, kind, node, fr, st):
        self.hazards.append((kind, node, st.pc, self.loc(fr), fr.func.qual if fr.func else "<module>"))

    # -------------------------------------------------------- modules
    def module_file(self, name):
        p = os.path.join(self.root, *name.split("."))
        for f in (os.path.join(p, "__init__.py"), p + ".py"):
            if os.path.isfile(f):
                return f
        if os.path.isdir(p):
            return ""
        return None

    def load(self, name, st=None, src=None):
        """`src`: text of a module of the rules themselves (a stand-in for user code)"""
        st = st or self.base
        if name in self.modules:
            return self.modules[name]
        f = self.module_file(name) if src is None else "<%s>" % name
        if f is None:
            return None
        ref = self.alloc(st, Obj("module", f={}, origin="global:" + name))
        m = ModuleVal(name, f, ref.id)
        self.modules[name] = m
        st.w(ref.id).f["__name__"] = name
        if "." in name:
            parent = name.rsplit(".", 1)[0]
            pm = self.load(parent, st)
            if pm:
                st.w(pm.objid).f[name.rsplit(".", 1)[1]] = m
        if f:
            if src is None:
                src = open(f, encoding="utf-8").read()
                self.files[f] = len(src.splitlines())
            tree = ast.parse(src, f)
            fr = Frame(ref.id, (), m)
            fr.locals = None
            out = self.block(tree.body, fr, st)
            if out.next is None:
                raise Unsupported("module %s does not load: %s" % (name, out.exc and out.exc[1]))
            if out.next[1] is not st:
                st.adopt(out.next[1])
        return m

    def load_all(self):
        self.load("osa_remember", None, REMEMBER)
        self.load("osa_shims", None, SHIMS)
        pk = os.path.join(self.root, self.package)
        for d, dirs, fs in sorted(os.walk(pk)):
            dirs.sort()
            for f in sorted(fs):
                if f.endswith(".py"):
                    rel = os.path.relpath(os.path.join(d, f), self.root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    self.load(rel)
        for o in self.base.heap.values():
            if o.origin is None:
                o.origin = "global"

    def lookup(self, dotted, st=None):
        """value of a public dotted name"""
        st = st or self.base
        parts = dotted.split(".")
        for k in range(len(parts), 0, -1):
            m = self.modules.get(".".join(parts[:k]))
            if m is not None:
                v = m
                fr = Frame(m.objid, (), m)
                for p in parts[k:]:
                    v = self.getattr(v, p, fr, st)
                return v
        raise Unsupported("no such name: " + dotted)

    # -------------------------------------------------------- merging
    def phi(self, c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        if same(a, b):
            return a
        if isinstance(a, N) and isinstance(b, N):
            return D.ite(c, a, b)
        if isbool(a) and isbool(b):
            return D.c_ite(c, a, b)
        if isinstance(a, N) and isbool(b) or isinstance(b, N) and isbool(a):
            return D.ite(c, self.num(a), self.num(b))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.phi(c, x, y) for x, y in zip(a, b))
        if isinstance(a, Phi):
            r = D.implies(c, a.c)
            if r is not None:
                return self.phi(c, a.a if r else a.b, b)
        if isinstance(b, Phi):
            r = D.implies(D.c_not(c), b.c)
            if r is not None:
                return self.phi(c, a, b.a if r else b.b)
        return Phi(c, a, b)

    def fuse(self, v, st, memo):
        """one object graph holding the gated field values of joined objects of the same class"""
        if not isinstance(v, Phi):
            return v
        a, b = self.fuse(v.a, st, memo), self.fuse(v.b, st, memo)
        if not (isinstance(a, Ref) and isinstance(b, Ref)):
            raise Unsupported("joined values of different kinds")
        key = (v.c if isinstance(v.c, bool) else v.c.id, a.id, b.id)
        if key in memo:
            return memo[key]
        if a.id == b.id:
            return a
        oa, ob = st.get(a.id), st.get(b.id)
        if oa.kind != "inst" or ob.kind != "inst" or oa.cls is not ob.cls or set(oa.f) != set(ob.f):
            raise Unsupported("joined objects of different shape")
        c = Obj("inst", oa.cls, None, None, None)
        r = self.alloc(st, c)
        memo[key] = r
        c.f = {k: self.fuse(self.phi(v.c, oa.f[k], ob.f[k]), st, memo) for k in oa.f}
        return r

    def merge(self, c, s1, s2):
        """state after the join of s1 (when c) and s2"""
        if c is True:
            return s1
        if c is False:
            return s2
        s = State()
        h1, h2 = s1.heap, s2.heap
        s.heap = dict(h1)
        for i, o2 in h2.items():
            o1 = h1.get(i)
            if o1 is None:
                s.heap[i] = o2
                continue
            if o1 is o2:
                continue
            o = Obj(o1.kind, o1.cls if o1.cls is o2.cls else self.phi(c, o1.cls, o2.cls), origin=o1.origin)
            if o1.f is not None:
                f = {}
                for k in list(o1.f) + [k for k in o2.f if k not in o1.f]:
                    f[k] = self.phi(c, o1.f.get(k, UNBOUND), o2.f.get(k, UNBOUND))
                o.f = f
            if o1.items is not None:
                if len(o1.items) == len(o2.items):
                    o.items = [self.phi(c, x, y) for x, y in zip(o1.items, o2.items)]
                else:
                    o.kind = "philist"
                    o.items = None
                    o.f = {"c": c, "a": list(o1.items), "b": list(o2.items)}
            s.heap[i] = o
        s1.owned = set()
        s2.owned = set()
        p = []
        for x, y in zip(s1.pc, s2.pc):
            if x is not y:
                break
            p.append(x)
        s.pc = tuple(p)
        return s

    def join(self, x, y):
        """two outcomes (guard, value, state) that exclude one another"""
        if x is None:
            return y
        if y is None:
            return x
        g1, v1, s1 = x
        g2, v2, s2 = y
        if g1 is False:
            return y
        if g2 is False:
            return x
        return (D.c_or(g1, g2), self.phi(g1, v1, v2), self.merge(g1, s1, s2))

    def absorb(self, out, o, g, kinds=("ret", "brk", "cont", "exc")):
        for k in kinds:
            x = getattr(o, k)
            if x is not None:
                gg = D.c_and(g, x[0])
                if gg is False:
                    continue
                setattr(out, k, self.join(getattr(out, k), (gg, x[1], x[2])))

    def known(self, st, c):
        if isinstance(c, bool):
            return c
        for p in st.pc:
            r = D.implies(p, c)
            if r is not None:
                return r
        if c.op in ("and", "or", "not"):
            r = D.restrict(c, st.pc)
            if isinstance(r, bool):
                return r
        return None

    def split(self, st, c, ft, ff):
        """evaluate under both outcomes of c and join"""
        d = self.known(st, c)
        if d is True:
            return ft(st)
        if d is False:
            return ff(st)
        s1, s2 = st.fork(c), st.fork(D.c_not(c))
        r1 = r2 = None
        v1 = v2 = None
        pc = st.pc
        try:
            v1 = ft(s1)
        except Raised as e:
            r1 = e
        try:
            v2 = ff(s2)
        except Raised as e:
            r2 = e
        if r1 and r2:
            raise Raised(r1.exc if r1.exc == r2.exc else "Exception", st)
        if r1 or r2:
            e, bad, s, v, ok = (r1, c, s2, v2, D.c_not(c)) if r1 else (r2, D.c_not(c), s1, v1, c)
            self.cond_raise(bad, e.exc, s1 if r1 else s2, pc)
            st.adopt(s, pc + ((ok,) if isinstance(ok, C) else ()))
            return v
        m = self.merge(c, s1, s2)
        st.adopt(m, pc)
        return self.phi(c, v1, v2)

    def cond_raise(self, cond, exc, state, pc):
        self.raises.append((pc, cond, exc))
        if self.try_frames:
            self.try_frames[-1].append((D.c_and(*(pc + (cond,))) if pc else cond, exc, state))

    # -------------------------------------------------------- coercions
    def num(self, v):
        if isinstance(v, N):
            return v
        if isinstance(v, bool):
            return D.const(int(v))
        if isinstance(v, C):
            return D.ite(v, D.const(1), D.const(0))
        raise Unsupported("number expected, got %s" % type(v).__name__)

    def truth(self, v, fr, st):
        if isinstance(v, (bool, C)):
            return v
        if v is None:
            return False
        if isinstance(v, N):
            return D.cmp_("!=", v, D.const(0))
        if isinstance(v, Lazy):
            return True
        if isinstance(v, (str, tuple)):
            return len(v) > 0
        if isinstance(v, Some):
            return D.c_or(*[c for c, _ in v.items])
        if isinstance(v, AttrDict):
            return len(st.get(v.ref.id).f) > 0
        if isinstance(v, Ref):
            o = st.get(v.id)
            if o.kind in ("list", "set"):
                return len(o.items) > 0
            if o.kind == "dict":
                return len(o.f) > 0
            for d in ("__bool__", "__len__"):
                m = self.find(o.cls, d, st)
                if m is not None:
                    return self.truth(self.call(Bound(m, v), [], {}, fr, st), fr, st)
            return True
        if isinstance(v, Phi):
            return self.phi(v.c, self.truth(v.a, fr, st), self.truth(v.b, fr, st))
        if isinstance(v, (ClassVal, FuncVal, Bound, Builtin, ModuleVal, EnumVal)):
            return True
        raise Unsupported("truth of %s" % type(v).__name__)

    def const_int(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, N) and v.op == "const" and v.val.denominator == 1:
            return int(v.val)
        return None

    def key(self, v, st=None, fr=None):
        if isinstance(v, N):
            if v.op != "const":
                return SymKey(v)
            return ("n", v.val)
        if isinstance(v, (str, bool)) or v is None:
            return v
        if isinstance(v, tuple):
            return tuple(self.key(x, st, fr) for x in v)
        if isinstance(v, Ref) and st is not None and v.id in st.heap and st.get(v.id).kind == "inst" and isinstance(st.get(v.id).cls, ClassVal):
            o = st.get(v.id)
            h = self.find(o.cls, "__hash__", st)
            if isinstance(h, FuncVal) and fr is not None:
                return ("value", o.cls, self.key(self.call(Bound(h, v), [], {}, fr, st), st, fr))
            d = o.cls.dataclass
            if h is None and d is not None and d.get("frozen") and d.get("eq", True):
                return ("value", o.cls) + tuple(self.key(o.f[x], st, fr) for x in self.fields(o.cls))
        if isinstance(v, (ClassVal, Ref, FuncVal, EnumVal)):
            return v
        raise Unsupported("key %s" % type(v).__name__)

    def symbolic(self, k):
        return isinstance(k, SymKey) or isinstance(k, tuple) and any(self.symbolic(x) for x in k)

    def bound(self, v):
        """condition under which a joined dictionary entry is present"""
        if v is UNBOUND:
            return False
        if isinstance(v, Phi):
            return D.c_ite(v.c, self.bound(v.a), self.bound(v.b))
        return True

    def present(self, v):
        """the value of an entry that is present"""
        if isinstance(v, Phi):
            if self.bound(v.a) is False:
                return self.present(v.b)
            if self.bound(v.b) is False:
                return self.present(v.a)
            return self.phi(v.c, self.present(v.a), self.present(v.b))
        return v

    def entries(self, o, i, fr, st):
        """[(condition, value)]: entries of a dictionary that the key may select, latest first; they exclude one another in that order"""
        k = self.key(i, st, fr)
        i = self.unkey(k)
        if not self.symbolic(k) and not any(self.symbolic(x) for x in o.f):
            if k in o.f:
                b = self.bound(o.f[k])
                return [(b, self.present(o.f[k]))] if b is not False else []
            return []
        out = []
        for x in reversed(list(o.f)):
            c = D.c_and(self.rel("==", i, self.unkey(x), fr, st), self.bound(o.f[x])) if x != k else self.bound(o.f[x])
            if c is False:
                continue
            out.append((c, self.present(o.f[x])))
            if c is True:
                break
        return out

    def select(self, es, other, st):
        """value selected among entries"""
        if not es:
            return other(st)
        c, v = es[0]
        if c is True:
            return v
        return self.split(st, c, lambda s: v, lambda s: self.select(es[1:], other, s))

    def put(self, o, k, x):
        if self.symbolic(k) or any(self.symbolic(y) for y in o.f):
            o.f.pop(k, None)
        o.f[k] = x

    def unkey(self, k):
        if isinstance(k, SymKey):
            return k.node
        if isinstance(k, tuple) and len(k) == 2 and k[0] == "n":
            return D.const(k[1])
        if isinstance(k, tuple):
            return tuple(self.unkey(x) for x in k)
        return k

    # -------------------------------------------------------- attribute access
    def find(self, cls, name, st):
        if isinstance(cls, Phi):
            return None
        if cls is None:
            return None
        for k in cls.mro():
            v = st.get(k.objid).f.get(name, None)
            if v is not None or name in st.get(k.objid).f:
                return v
        return None

    def has_cls(self, cls, name, st):
        return any(name in st.get(k.objid).f for k in cls.mro())

    def bind(self, v, self_, cls):
        if isinstance(v, FuncVal):
            if v.kind == "static":
                return v
            if v.kind == "class":
                return Bound(v, cls)
            if self_ is not None:
                return Bound(v, self_)
            return v
        return v

    def getattr(self, v, name, fr, st):
        if isinstance(v, Phi):
            if v.a is UNBOUND or v.b is UNBOUND:
                x = v.b if v.a is UNBOUND else v.a
                self.hazard("unbound", None, fr, st)
                return self.getattr(x, name, fr, st)
            return self.split(st, v.c, lambda s: self.getattr(v.a, name, fr, s), lambda s: self.getattr(v.b, name, fr, s))
        if isinstance(v, Ref):
            o = st.get(v.id)
            if o.kind == "inst":
                if name == "__class__":
                    return o.cls
                if name == "__dict__":
                    return AttrDict(v)
                # data descriptors
                cv = self.find(o.cls, name, st) if not isinstance(o.cls, Phi) else None
                if isinstance(cv, FuncVal) and cv.kind == "property":
                    return self.call(Bound(cv, v), [], {}, fr, st)
                if isinstance(cv, Ref) and st.get(cv.id).kind == "inst" and self.find(st.get(cv.id).cls, "__get__", st) is not None:
                    if name not in o.f or self.find(st.get(cv.id).cls, "__set__", st) is not None:
                        return self.call(self.getattr(cv, "__get__", fr, st), [v, o.cls], {}, fr, st)
                if name in o.f and o.f[name] is not UNBOUND:
                    x = o.f[name]
                    if isinstance(x, Phi) and (x.a is UNBOUND or x.b is UNBOUND):
                        self.hazard("unbound-attribute " + name, None, fr, st)
                        x = x.b if x.a is UNBOUND else x.a
                    return x
                if self.has_cls(o.cls, name, st):
                    if isinstance(cv, FuncVal) and cv.kind == "cached":
                        r = self.call(Bound(cv, v), [], {}, fr, st)
                        st.w(v.id).f[name] = r
                        return r
                    return self.bind(cv, v, o.cls)
                if getattr(o.cls, "named", False) and name in ("_replace", "_asdict", "_fields"):
                    return self.named_attr(v, name, st)
                if self.has_cls(o.cls, "__getattr__", st):
                    return self.call(Bound(self.find(o.cls, "__getattr__", st), v), [name], {}, fr, st)
                raise Raised("AttributeError", st, "%s has no attribute %s (%s)" % (o.cls, name, self.loc(fr)))
            return Bound(Builtin(o.kind + "." + name), v)
        if isinstance(v, ClassVal):
            if name == "__name__":
                return v.name
            if name == "__qualname__":
                return v.name
            if name == "__doc__":
                return Opaque("str")
            if self.has_cls(v, name, st):
                return self.bind(self.find(v, name, st), None, v)
            if name == "__mro__":
                return tuple(v.mro())
            if name == "__new__":
                return Builtin("object.__new__")
            if name == "__dict__":
                return self.new_dict(st, st.get(v.objid).f)
            if getattr(v, "named", False) and name == "_fields":
                return tuple(v.dataclass["fields"])
            if getattr(v, "named", False) and name == "_make":
                return Builtin("make", lambda it, a, k, fr, s: it.call(v, it.iterate(a[0], fr, s), {}, fr, s))
            if name == "__members__":
                return self.new_dict(st, {m.name: m for m in getattr(v, "members", []) if isinstance(m, EnumVal)})
            raise Raised("AttributeError", st, "%s has no attribute %s (%s)" % (v, name, self.loc(fr)))
        if isinstance(v, ModuleVal):
            o = st.get(v.objid)
            if name in o.f:
                return o.f[name]
            sub = self.load(v.name + "." + name, st)
            if sub is not None:
                return sub
            raise Raised("AttributeError", st, "module %s has no %s" % (v.name, name))
        if isinstance(v, Builtin) and v.fn is None:
            return self.builtin_attr(v.name, name)
        if isinstance(v, Super):
            own = v.self_ if isinstance(v.self_, ClassVal) else st.get(v.self_.id).cls if isinstance(v.self_, Ref) else v.cls
            order = own.mro() if isinstance(own, ClassVal) else v.cls.mro()
            order = order[order.index(v.cls) + 1 :] if v.cls in order else v.cls.mro()[1:]
            for k in order:
                f = st.get(k.objid).f
                if name in f:
                    if isinstance(v.self_, ClassVal):
                        return self.bind(f[name], None, v.self_)
                    return self.bind(f[name], v.self_, st.get(v.self_.id).cls)
            if name in ("__init__", "__init_subclass__", "__set_name__"):
                return Builtin("noop")
            if name == "__new__":
                return Builtin("object.__new__")
            if name == "__setattr__" and isinstance(v.self_, Ref):
                return Bound(Builtin("object.__setattr__"), v.self_)
            raise Raised("AttributeError", st, "super has no " + name)
        if isinstance(v, str) and name in ("value", "_value_"):
            return v  # a member of a string enumeration
        if isinstance(v, (str, SymStr, Opaque)):
            return Bound(Builtin("str." + name), v)
        if isinstance(v, N):
            if name == "real":
                return v
            return Bound(Builtin("num." + name), v)
        if isinstance(v, tuple):
            return Bound(Builtin("tuple." + name), v)
        if isinstance(v, AttrDict):
            return Bound(Builtin("attrs." + name), v)
        if isinstance(v, EnumVal):
            if name in ("name", "_name_"):
                return v.name
            if name in ("value", "_value_"):
                return v.value
            cv = self.find(v.cls, name, st)
            if isinstance(cv, FuncVal) and cv.kind == "property":
                return self.call(Bound(cv, v), [], {}, fr, st)
            return self.bind(cv, v, v.cls)
        if isinstance(v, FuncVal):
            if name in ("__name__", "__qualname__"):
                return v.qual.rsplit(".", 1)[1]
            if name == "setter":
                return Builtin("propsetter", lambda it, a, k, fr, st: it.mk_setter(v, a[0]))
            if name == "cache_clear":
                return Builtin("noop")
        if isinstance(v, Bound):
            if name == "__self__":
                return v.self_
            if name == "__func__":
                return v.func
            if isinstance(v.func, FuncVal):
                return self.getattr(v.func, name, fr, st)
        if v is None:
            raise Raised("AttributeError", st, "None has no attribute %s (%s)" % (name, self.loc(fr)))
        if isinstance(v, ExcVal):
            return Opaque("exc")
        raise Unsupported("attribute %s of %s at %s" % (name, type(v).__name__, self.loc(fr)))

    def named_attr(self, v, name, st):
        fields = list(st.get(v.id).cls.dataclass["fields"])
        if name == "_fields":
            return tuple(fields)
        if name == "_asdict":
            return Builtin("asdict", lambda it, a, k, fr, s: it.new_dict(s, {x: s.get(v.id).f[x] for x in fields}))
        return Builtin("replace", lambda it, a, k, fr, s: it.b_dataclasses_replace([v], k, fr, s))

    def mk_setter(self, prop, fn):
        p = FuncVal(prop.node, prop.qual, prop.module, prop.closure, prop.defaults, prop.kwdefaults, "property", prop.cls)
        p.setter = fn
        return p

    def builtin_attr(self, mod, name):
        if mod == "math":
            if name in MATH_CONST:
                return D.const(MATH_CONST[name])
            if name in MATH_FN:
                return Builtin("math." + name, lambda it, a, k, fr, st, n=name: it.math_fn(n, a, k, fr, st))
            if name in ("inf", "nan"):
                return Opaque(name)
        if mod in ("random", "copy", "functools", "operator", "itertools", "typing", "dataclasses", "abc", "collections", "numbers", "warnings", "logging", "enum", "types", "__future__", "typing_extensions", "cmath", "sys", "contextlib"):
            return Builtin(mod + "." + name)
        return Builtin(mod + "." + name)

    def weak_store(self, v, name, val, st):
        """a plain field of a joined object: every alternative keeps its old value where it is not the one meant"""
        if isinstance(val, Lazy):
            return False
        leaves, todo = [], [v]
        while todo:
            x = todo.pop()
            if isinstance(x, Phi):
                todo += [x.b, x.a]
                continue
            if not isinstance(x, Ref):
                return False
            o = st.get(x.id)
            if o.kind != "inst" or isinstance(o.cls, Phi) or self.find(o.cls, name, st) is not None or self.find(o.cls, "__setattr__", st) is not None:
                return False
            if o.cls.dataclass and o.cls.dataclass.get("frozen"):
                return False
            if x.id not in leaves:
                leaves.append(x.id)

        def at(x, i, old):
            if isinstance(x, Phi):
                p, q = at(x.a, i, old), at(x.b, i, old)
                return p if p is q else self.phi(x.c, p, q)
            return val if x.id == i else old

        for i in leaves:
            f = st.w(i).f
            f[name] = at(v, i, f.get(name, UNBOUND))
        return True

    def setattr(self, v, name, val, fr, st):
        tick()
        if isinstance(v, Phi):
            if self.weak_store(v, name, val, st):
                return

            def f(x):
                return lambda s: self.setattr(x, name, val, fr, s)
            self.split(st, v.c, f(v.a), f(v.b))
            return
        if isinstance(v, Ref):
            o = st.get(v.id)
            if o.kind == "inst":
                cv = None if isinstance(o.cls, Phi) else self.find(o.cls, name, st)
                if isinstance(cv, FuncVal) and cv.kind == "property":
                    if cv.setter is None:
                        raise Raised("AttributeError", st, "property %s has no setter" % name)
                    self.call(Bound(cv.setter, v), [val], {}, fr, st)
                    return
                if isinstance(cv, Ref) and st.get(cv.id).kind == "inst" and self.find(st.get(cv.id).cls, "__set__", st) is not None:
                    self.call(self.getattr(cv, "__set__", fr, st), [v, val], {}, fr, st)
                    return
                if isinstance(val, Lazy):
                    val = self.keep(val, st)
                sa = self.find(o.cls, "__setattr__", st)
                if isinstance(sa, FuncVal):
                    self.call(Bound(sa, v), [name, val], {}, fr, st)
                    return
                if o.cls.dataclass and o.cls.dataclass.get("frozen"):
                    raise Raised("AttributeError", st, "frozen")
                st.w(v.id).f[name] = val
                return
        if isinstance(v, ClassVal):
            st.w(v.objid).f[name] = val
            return
        if isinstance(v, ModuleVal):
            st.w(v.objid).f[name] = val
            return
        raise Unsupported("assignment to attribute of %s" % type(v).__name__)

    # -------------------------------------------------------- names
    def load_name(self, name, fr, st):
        x = UNBOUND
        if name not in fr.globals_decl:
            f = st.get(fr.scope).f
            if name in f:
                x = f[name]
            else:
                for s in reversed(fr.closure):
                    ff = st.get(s).f
                    if name in ff:
                        x = ff[name]
                        break
        if x is UNBOUND:
            mf = st.get(fr.module.objid).f
            if name in mf:
                x = mf[name]
        if isinstance(x, Phi) and (x.a is UNBOUND or x.b is UNBOUND):
            self.hazard("unbound " + name, None, fr, st)
            x = x.b if x.a is UNBOUND else x.a
        if x is not UNBOUND:
            return x
        if name == "__class__" and fr.cls is not None:
            return fr.cls
        if name in PYBUILTINS:
            return Builtin(name)
        if name in EXC_NAMES:
            return Builtin("exc." + name)
        if name in ("True", "False", "None"):
            return {"True": True, "False": False, "None": None}[name]
        if name in ("__file__", "__doc__"):
            return Opaque("str")
        raise Raised("UnboundLocalError" if fr.locals and name in fr.locals else "NameError", st, "%s at %s" % (name, self.loc(fr)))

    def keep(self, v, st):
        return self.alloc(st, Obj("list", "iter", items=list(v)))

    def store_name(self, name, v, fr, st):
        if isinstance(v, Lazy):
            v = self.keep(v, st)
        if name in fr.globals_decl:
            st.w(fr.module.objid).f[name] = v
            return
        if name in fr.nonlocals:
            for s in reversed(fr.closure):
                if name in st.get(s).f:
                    st.w(s).f[name] = v
                    return
        st.w(fr.scope).f[name] = v

    # -------------------------------------------------------- expressions
    def ev(self, n, fr, st):
        fr.line = getattr(n, "lineno", fr.line)
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("expression %s at %s" % (type(n).__name__, self.loc(fr)))
        return m(n, fr, st)

    def e_Constant(self, n, fr, st):
        v = n.value
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        if isinstance(v, (int, float)):
            if isinstance(v, float) and (v != v or v in (math.inf, -math.inf)):
                return Opaque("inf")
            return D.const(v)
        if v is Ellipsis:
            return None
        raise Unsupported("constant %r" % (v,))

    def e_Name(self, n, fr, st):
        return self.load_name(n.id, fr, st)

    def e_Attribute(self, n, fr, st):
        v = self.ev(n.value, fr, st)
        fr.line = n.lineno
        return self.getattr(v, n.attr, fr, st)

    def e_Tuple(self, n, fr, st):
        return tuple(self.elems(n.elts, fr, st))

    def e_List(self, n, fr, st):
        return self.new_list(st, self.elems(n.elts, fr, st))

    def e_Set(self, n, fr, st):
        return self.alloc(st, Obj("set", items=self.elems(n.elts, fr, st)))

    def elems(self, elts, fr, st):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.ev(e.value, fr, st), fr, st))
            else:
                out.append(self.ev(e, fr, st))
        return out

    def e_Dict(self, n, fr, st):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.ev(v, fr, st)
                d.update(st.get(o.id).f)
            else:
                kk = self.key(self.ev(k, fr, st), st, fr)
                d[kk] = self.ev(v, fr, st)
        return self.new_dict(st, d)

    def e_JoinedStr(self, n, fr, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                x = self.ev(v.value, fr, st)
                if isinstance(x, str) and v.format_spec is None:
                    parts.append(x)
                elif isinstance(x, N) and x.op == "const" and x.val.denominator == 1 and v.format_spec is None:
                    parts.append(str(int(x.val)))
                else:
                    parts.append(None)
            else:
                parts.append(v.value)
        if all(p is not None for p in parts):
            return "".join(parts)
        return Opaque("str")

    def e_UnaryOp(self, n, fr, st):
        v = self.ev(n.operand, fr, st)
        return self.unary(n.op, v, fr, st)

    def unary(self, op, v, fr, st):
        if isinstance(op, ast.Not):
            return D.c_not(self.truth(v, fr, st))
        if isinstance(v, Phi):
            return self.split(st, v.c, lambda s: self.unary(op, v.a, fr, s), lambda s: self.unary(op, v.b, fr, s))
        if isinstance(v, Ref):
            d = {ast.USub: "__neg__", ast.UAdd: "__pos__", ast.Invert: "__invert__"}[type(op)]
            return self.call(self.getattr(v, d, fr, st), [], {}, fr, st)
        if isinstance(v, Opaque):
            if isinstance(op, ast.USub) and v.what in ("inf", "-inf"):
                return Opaque("-inf" if v.what == "inf" else "inf")
            return v
        x = self.num(v)
        if isinstance(op, ast.USub):
            return D.neg(x)
        if isinstance(op, ast.UAdd):
            return x
        if isinstance(op, ast.Invert) and self.const_int(x) is not None:
            return D.const(~self.const_int(x))
        raise Unsupported("unary %s" % type(op).__name__)

    def e_BinOp(self, n, fr, st):
        a = self.ev(n.left, fr, st)
        b = self.ev(n.right, fr, st)
        fr.line = n.lineno
        return self.binop(type(n.op), a, b, fr, st)

    def binop(self, op, a, b, fr, st):
        if isinstance(a, (N, bool, C)) and isinstance(b, (N, bool, C)):
            if op in (ast.BitAnd, ast.BitOr, ast.BitXor) and isbool(a) and isbool(b):
                return {ast.BitAnd: D.c_and, ast.BitOr: D.c_or, ast.BitXor: lambda x, y: D.c_ite(x, D.c_not(y), y)}[op](a, b)
            return self.arith(BIN[op][0], self.num(a), self.num(b), fr, st)
        if isinstance(a, Phi):
            return self.split(st, a.c, lambda s: self.binop(op, a.a, b, fr, s), lambda s: self.binop(op, a.b, b, fr, s))
        if isinstance(b, Phi):
            return self.split(st, b.c, lambda s: self.binop(op, a, b.a, fr, s), lambda s: self.binop(op, a, b.b, fr, s))
        name, d, rd = BIN[op]
        for x, y, dn in ((a, b, d), (b, a, rd)):
            if isinstance(x, Ref) and st.get(x.id).kind == "inst":
                m = self.find(st.get(x.id).cls, dn, st)
                if m is not None:
                    return self.call(Bound(m, x), [y], {}, fr, st)
        if isinstance(a, str) and isinstance(b, str) and name == "add":
            return a + b
        if name == "mod" and isinstance(a, str):
            xs = b if isinstance(b, tuple) else (b,)
            ys = [x if isinstance(x, str) else self.const_int(x) if isinstance(x, N) else None for x in xs]
            if all(y is not None for y in ys):
                return a % tuple(ys)
        if name == "mod" and isinstance(a, (str, Opaque)):
            return Opaque("str")
        if isinstance(a, (str, Opaque)) or isinstance(b, (str, Opaque)):
            for q, r in ((a, b), (b, a)):
                if isinstance(q, Opaque) and q.what in ("inf", "-inf"):
                    if name in ("add", "sub") and q is a and isinstance(r, N):
                        return q
                    raise Unsupported("arithmetic with infinity at " + self.loc(fr))
            return Opaque("str")
        if isinstance(a, tuple) and isinstance(b, tuple) and name == "add":
            return a + b
        if isinstance(a, tuple) and name == "mul" and self.const_int(b) is not None:
            return a * self.const_int(b)
        if isinstance(a, Ref) and st.get(a.id).kind == "list":
            if name == "add" and isinstance(b, Ref) and st.get(b.id).kind == "list":
                return self.new_list(st, st.get(a.id).items + st.get(b.id).items)
            if name == "mul" and self.const_int(b) is not None:
                return self.new_list(st, st.get(a.id).items * self.const_int(b))
        if isinstance(a, Ref) and isinstance(b, Ref) and st.get(a.id).kind == st.get(b.id).kind == "set":
            return self.setop(name, st.get(a.id).items, st.get(b.id).items, fr, st)
        if isinstance(a, Ref) and isinstance(b, Ref) and st.get(a.id).kind == st.get(b.id).kind == "dict" and name == "bor":
            return self.new_dict(st, {**st.get(a.id).f, **st.get(b.id).f})
        if isinstance(b, Ref) and name == "mul" and st.get(b.id).kind == "list" and self.const_int(a) is not None:
            return self.new_list(st, st.get(b.id).items * self.const_int(a))
        if isinstance(a, (Builtin, ClassVal)) and name == "bor":
            return Opaque("type")
        if a is None or b is None:
            raise Raised("TypeError", st, "None in arithmetic at %s" % self.loc(fr))
        raise Unsupported("%s of %s and %s at %s" % (name, type(a).__name__, type(b).__name__, self.loc(fr)))

    def member(self, x, ys, fr, st):
        c = D.c_or(*[self.rel("==", x, y, fr, st) for y in ys])
        k = self.known(st, c)
        if k is None:
            raise Unsupported("set of symbolic values at " + self.loc(fr))
        return k

    def distinct(self, xs, fr, st):
        out = []
        for x in xs:
            c = D.c_or(*[self.rel("==", x, y, fr, st) for y in out])
            if self.known(st, c) is not True:
                out.append(x)
        return out

    def setop(self, name, xs, ys, fr, st):
        if name == "band":
            r = [x for x in xs if self.member(x, ys, fr, st)]
        elif name == "bor":
            r = list(xs) + [y for y in ys if not self.member(y, xs, fr, st)]
        elif name == "sub":
            r = [x for x in xs if not self.member(x, ys, fr, st)]
        elif name == "bxor":
            r = [x for x in xs if not self.member(x, ys, fr, st)] + [y for y in ys if not self.member(y, xs, fr, st)]
        else:
            raise Unsupported("set " + name)
        return self.alloc(st, Obj("set", items=r))

    def arith(self, name, a, b, fr, st):
        if name in ("band", "bor", "bxor", "shl", "shr") and self.const_int(a) is not None and self.const_int(b) is not None:
            import operator
            return D.const({"band": operator.and_, "bor": operator.or_, "bxor": operator.xor, "shl": operator.lshift, "shr": operator.rshift}[name](self.const_int(a), self.const_int(b)))
        try:
            if name == "add":
                return D.add(a, b)
            if name == "sub":
                return D.sub(a, b)
            if name == "mul":
                return D.mul(a, b)
            if name == "div":
                if b.op != "const":
                    self.hazard("div", b, fr, st)
                return D.div(a, b)
            if name == "pow":
                if b.op == "const" and b.val.denominator > 1 and a.op != "const":
                    self.hazard("sqrt" if b.val > 0 else "log", a, fr, st)
                return D.power(a, b)
            if name == "mod":
                return D.mod(a, b)
            if name == "floordiv":
                return D.floor(D.div(a, b))
        except ZeroDivisionError:
            raise Raised("ZeroDivisionError", st, self.loc(fr))
        except D.DagError as e:
            raise Raised("ValueError", st, str(e))
        x, y = self.const_int(a), self.const_int(b)
        if x is not None and y is not None:
            return D.const({"shl": lambda: x << y, "shr": lambda: x >> y, "band": lambda: x & y, "bor": lambda: x | y, "bxor": lambda: x ^ y}[name]())
        raise Unsupported("arithmetic " + name)

    def e_BoolOp(self, n, fr, st):
        isand = isinstance(n.op, ast.And)

        def go(i, s):
            v = self.ev(n.values[i], fr, s)
            if i == len(n.values) - 1:
                return v
            c = self.truth(v, fr, s)
            k = self.known(s, c)
            if k is not None:
                c = k
            if isinstance(c, bool):
                if c is isand:
                    return go(i + 1, s)
                return v if not isinstance(v, C) else c
            if isand:
                return self.split(s, c, lambda t: go(i + 1, t), lambda t: (False if isbool(v) else v))
            return self.split(s, c, lambda t: (True if isbool(v) else v), lambda t: go(i + 1, t))

        return go(0, st)

    def e_IfExp(self, n, fr, st):
        c = self.truth(self.ev(n.test, fr, st), fr, st)
        if c is True:
            return self.ev(n.body, fr, st)
        if c is False:
            return self.ev(n.orelse, fr, st)
        return self.split(st, c, lambda s: self.ev(n.body, fr, s), lambda s: self.ev(n.orelse, fr, s))

    def e_NamedExpr(self, n, fr, st):
        v = self.ev(n.value, fr, st)
        self.store_name(n.target.id, v, fr, st)
        return v

    def e_Compare(self, n, fr, st):
        left = self.ev(n.left, fr, st)

        def go(i, left, s):
            right = self.ev(n.comparators[i], fr, s)
            c = self.compare(n.ops[i], left, right, fr, s)
            if i == len(n.ops) - 1:
                return c
            if c is False:
                return False
            if c is True:
                return go(i + 1, right, s)
            return self.split(s, c, lambda t: go(i + 1, right, t), lambda t: False)

        return go(0, left, st)

    def compare(self, op, a, b, fr, st):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identical(a, b, fr, st)
            return r if isinstance(op, ast.Is) else D.c_not(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a, fr, st)
            return r if isinstance(op, ast.In) else D.c_not(r)
        return self.rel(CMP[type(op)], a, b, fr, st)

    def identical(self, a, b, fr, st):
        if isinstance(a, Phi):
            return self.phi(a.c, self.identical(a.a, b, fr, st), self.identical(a.b, b, fr, st))
        if isinstance(b, Phi):
            return self.phi(b.c, self.identical(a, b.a, fr, st), self.identical(a, b.b, fr, st))
        if isbool(a) and isbool(b):
            return D.c_ite(a, b, D.c_not(b))
        if isinstance(a, N) and isinstance(b, N):
            return a is b
        return same(a, b)

    def rel(self, op, a, b, fr, st):
        if isinstance(a, Phi):
            return self.split(st, a.c, lambda s: self.rel(op, a.a, b, fr, s), lambda s: self.rel(op, a.b, b, fr, s))
        if isinstance(b, Phi):
            return self.split(st, b.c, lambda s: self.rel(op, a, b.a, fr, s), lambda s: self.rel(op, a, b.b, fr, s))
        if isbool(a) and isbool(b) and op in ("==", "!="):
            r = D.c_ite(a, b, D.c_not(b))
            return r if op == "==" else D.c_not(r)
        if isinstance(a, (N, bool, C)) and isinstance(b, (N, bool, C)):
            return D.cmp_(op, self.num(a), self.num(b))
        if isinstance(a, SymStr) and isinstance(b, str):
            r = D.streq(a.name, b)
            return r if op == "==" else D.c_not(r)
        if isinstance(b, SymStr) and isinstance(a, str):
            return self.rel(op, b, a, fr, st)
        if op in ("==", "!=") and isinstance(a, Ref) and isinstance(b, Ref) and st.get(a.id).kind == st.get(b.id).kind == "inst":
            k = st.get(a.id).cls
            if isinstance(k, ClassVal) and k is st.get(b.id).cls and k.dataclass is not None and k.dataclass.get("eq", True) and self.find(k, "__eq__", st) is None:
                fs = self.fields(k)
                r = D.c_and(*[self.rel("==", st.get(a.id).f[x], st.get(b.id).f[x], fr, st) for x in fs])
                return r if op == "==" else D.c_not(r)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref) and st.get(x.id).kind == "inst":
                o = op if x is a else {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
                m = self.find(st.get(x.id).cls, CMP_DUNDER[o], st)
                if m is not None:
                    return self.truth(self.call(Bound(m, x), [y], {}, fr, st), fr, st)
                if op not in ("==", "!=") and getattr(st.get(x.id).cls, "total", False) and self.find(st.get(x.id).cls, "__lt__", st) is not None:
                    lt = self.truth(self.call(Bound(self.find(st.get(x.id).cls, "__lt__", st), x), [y], {}, fr, st), fr, st)
                    eq = self.rel("==", x, y, fr, st)
                    return {"<=": lambda: D.c_or(lt, eq), ">": lambda: D.c_and(D.c_not(lt), D.c_not(eq)), ">=": lambda: D.c_not(lt)}[o]()
                if op == "!=":
                    m = self.find(st.get(x.id).cls, "__eq__", st)
                    if m is not None:
                        return D.c_not(self.truth(self.call(Bound(m, x), [y], {}, fr, st), fr, st))
        if op in ("==", "!="):
            if isinstance(a, tuple) and isinstance(b, tuple):
                r = D.c_and(*[self.rel("==", x, y, fr, st) for x, y in zip(a, b)]) if len(a) == len(b) else False
            elif isinstance(a, Ref) and isinstance(b, Ref) and st.get(a.id).kind == st.get(b.id).kind == "list":
                x, y = st.get(a.id).items, st.get(b.id).items
                r = D.c_and(*[self.rel("==", p, q, fr, st) for p, q in zip(x, y)]) if len(x) == len(y) else False
            elif isinstance(a, N) and isinstance(b, Opaque) and b.what in ("inf", "-inf") or isinstance(b, N) and isinstance(a, Opaque) and a.what in ("inf", "-inf"):
                r = False
            elif isinstance(a, Opaque) or isinstance(b, Opaque):
                raise Unsupported("comparison with unknown value at " + self.loc(fr))
            elif isinstance(a, str) and isinstance(b, str):
                r = a == b
            else:
                r = same(a, b)
            return r if op == "==" else D.c_not(r)
        if isinstance(a, str) and isinstance(b, str):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b:
            return self.split(st, self.rel("==", a[0], b[0], fr, st), lambda s: self.rel(op, a[1:], b[1:], fr, s), lambda s: self.rel(op.rstrip("="), a[0], b[0], fr, s))
        if isinstance(b, Opaque) and b.what in ("inf", "-inf") and isinstance(a, N):
            return op in (("<", "<=") if b.what == "inf" else (">", ">="))
        if isinstance(a, Opaque) and a.what in ("inf", "-inf") and isinstance(b, N):
            return op in ((">", ">=") if a.what == "inf" else ("<", "<="))
        raise Unsupported("comparison %s %s %s at %s" % (type(a).__name__, op, type(b).__name__, self.loc(fr)))

    def contains(self, cont, x, fr, st):
        if isinstance(cont, Some):
            return D.c_or(*[D.c_and(c, self.rel("==", x, y, fr, st)) for c, y in cont.items])
        if isinstance(cont, AttrDict):
            return self.b_hasattr([cont.ref, x], {}, fr, st) if x in st.get(cont.ref.id).f else False
        if isinstance(cont, Ref) and st.get(cont.id).kind == "dict":
            if isinstance(x, SymStr):
                return D.c_or(*[self.rel("==", x, k, fr, st) for k in st.get(cont.id).f])
            return D.c_or(*[c for c, _ in self.entries(st.get(cont.id), x, fr, st)])
        if isinstance(cont, str) and isinstance(x, str):
            return x in cont
        if isinstance(cont, Ref) and st.get(cont.id).kind == "inst":
            m = self.find(st.get(cont.id).cls, "__contains__", st)
            if m:
                return self.truth(self.call(Bound(m, cont), [x], {}, fr, st), fr, st)
        r = False
        for y in self.iterate(cont, fr, st):
            r = D.c_or(r, self.rel("==", x, y, fr, st))
        return r

    def e_Subscript(self, n, fr, st):
        v = self.ev(n.value, fr, st)
        if isinstance(n.slice, ast.Slice):
            lo = self.ev(n.slice.lower, fr, st) if n.slice.lower else None
            hi = self.ev(n.slice.upper, fr, st) if n.slice.upper else None
            sp = self.ev(n.slice.step, fr, st) if n.slice.step else None
            return self.getslice(v, lo, hi, sp, fr, st)
        if isinstance(v, (Builtin, ClassVal, Opaque)):
            return Opaque("type") if not isinstance(v, ClassVal) else v
        i = self.ev(n.slice, fr, st)
        return self.getitem(v, i, fr, st)

    def getslice(self, v, lo, hi, sp, fr, st):
        ix = [None if x is None else self.const_int(x) for x in (lo, hi, sp)]
        if any(a is not None and b is None for a, b in zip((lo, hi, sp), ix)):
            raise Unsupported("symbolic slice")
        s = slice(*ix)
        if isinstance(v, (tuple, str)):
            return v[s]
        if isinstance(v, Ref) and st.get(v.id).kind == "list":
            return self.new_list(st, st.get(v.id).items[s])
        raise Unsupported("slice")

    def getitem(self, v, i, fr, st):
        if isinstance(v, Phi):
            return self.split(st, v.c, lambda s: self.getitem(v.a, i, fr, s), lambda s: self.getitem(v.b, i, fr, s))
        if isinstance(i, Phi):
            return self.split(st, i.c, lambda s: self.getitem(v, i.a, fr, s), lambda s: self.getitem(v, i.b, fr, s))
        if isinstance(i, N) and i.op == "ite":
            return self.split(st, i.args[0], lambda s: self.getitem(v, i.args[1], fr, s), lambda s: self.getitem(v, i.args[2], fr, s))
        if isinstance(i, C):
            return self.split(st, i, lambda s: self.getitem(v, True, fr, s), lambda s: self.getitem(v, False, fr, s))
        if isinstance(v, Ref):
            o = st.get(v.id)
            if o.kind == "inst":
                if getattr(o.cls, "named", False):
                    return self.getitem(tuple(self.iterate(v, fr, st)), i, fr, st)
                return self.call(self.getattr(v, "__getitem__", fr, st), [i], {}, fr, st)
            if o.kind == "dict":
                if isinstance(i, SymStr):
                    keys = list(o.f)
                    def go(ks, s):
                        if len(ks) == 1:
                            return s.get(v.id).f[ks[0]]
                        return self.split(s, self.rel("==", i, ks[0], fr, s), lambda t: t.get(v.id).f[ks[0]], lambda t: go(ks[1:], t))
                    return go(keys, st)

                def missing(s):
                    raise Raised("KeyError", s, self.loc(fr))
                return self.select(self.entries(o, i, fr, st), missing, st)
            if o.kind == "list":
                k = self.const_int(i)
                if k is None:
                    return self.pick(o.items, i, fr, st)
                if not -len(o.items) <= k < len(o.items):
                    raise Raised("IndexError", st, self.loc(fr))
                return o.items[k]
        if isinstance(v, (tuple, str)):
            k = self.const_int(i)
            if k is None:
                return self.pick(v, i, fr, st)
            if not -len(v) <= k < len(v):
                raise Raised("IndexError", st, self.loc(fr))
            return v[k]
        if isinstance(v, AttrDict):
            if not isinstance(i, str) or i not in st.get(v.ref.id).f:
                raise Raised("KeyError", st, self.loc(fr))
            return self.getattr(v.ref, i, fr, st)
        if isinstance(v, ClassVal) and getattr(v, "members", None):
            return next(m for m in v.members if m.name == i)
        raise Unsupported("subscript of %s" % type(v).__name__)

    def pick(self, xs, i, fr, st):
        # the element of a fixed sequence at a position that is not constant
        if not isinstance(i, N) or not i.integer or len(xs) > 40:
            raise Unsupported("symbolic index at " + self.loc(fr))

        def go(k, s):
            if k == len(xs):
                raise Raised("IndexError", s, self.loc(fr))
            return self.split(s, D.c_or(self.rel("==", i, D.const(k), fr, s), self.rel("==", i, D.const(k - len(xs)), fr, s)), lambda t: xs[k], lambda t: go(k + 1, t))
        return go(0, st)

    def setitem(self, v, i, x, fr, st):
        if isinstance(v, Ref):
            o = st.get(v.id)
            if o.kind == "dict":
                self.put(st.w(v.id), self.key(i, st, fr), x)
                return
            if o.kind == "list":
                k = self.const_int(i)
                if k is None:
                    raise Unsupported("symbolic index store")
                if not -len(o.items) <= k < len(o.items):
                    raise Raised("IndexError", st, self.loc(fr))
                st.w(v.id).items[k] = x
                return
            if o.kind == "inst":
                self.call(self.getattr(v, "__setitem__", fr, st), [i, x], {}, fr, st)
                return
        if isinstance(v, AttrDict) and isinstance(i, str):
            st.w(v.ref.id).f[i] = x
            return
        if isinstance(v, Phi):
            self.split(st, v.c, lambda s: self.setitem(v.a, i, x, fr, s), lambda s: self.setitem(v.b, i, x, fr, s))
            return
        raise Unsupported("item store")

    def e_Lambda(self, n, fr, st):
        fr.captured = True
        a = n.args
        defaults = [self.ev(d, fr, st) for d in a.defaults]
        kwd = {k.arg: self.ev(d, fr, st) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return FuncVal(n, self.qual(fr, "<lambda>"), fr.module, self.closure_of(fr), defaults, kwd, "plain", fr.cls)

    def closure_of(self, fr):
        if fr.func is None and fr.scope == fr.module.objid:
            return ()
        if getattr(fr, "classbody", False):
            return fr.closure
        return fr.closure + (fr.scope,)

    def qual(self, fr, name):
        if fr.func is not None:
            return fr.func.qual + "." + name
        if fr.cls is not None:
            return fr.cls.qual + "." + name
        return fr.module.name + "." + name

    def comp(self, gens, fr, st, emit):
        scope = self.alloc(st, Obj("scope", f={}))
        fr.captured = True
        f2 = Frame(scope.id, self.closure_of(fr), fr.module, fr.func, fr.cls, None, fr.self_)
        f2.globals_decl = fr.globals_decl

        def go(i, s, cs):
            if i == len(gens):
                if not cs:
                    emit(f2, s, True)
                else:
                    c = D.c_and(*cs)
                    self.split(s, c, lambda t: emit(f2, t, c), lambda t: None)
                return
            g = gens[i]
            src = self.ev(g.iter, fr if i == 0 else f2, s)
            if isinstance(src, Some):
                xs = src.items
            else:
                xs = [(True, x) for x in self.iterate(src, fr, s)]
            for c0, x in xs:
                self.assign(g.target, x, f2, s)
                conds = cs if c0 is True else cs + [c0]
                ok = True
                for t in g.ifs:
                    if conds:
                        got = []
                        self.split(s, D.c_and(*conds), lambda u: got.append(self.truth(self.ev(t, f2, u), f2, u)), lambda u: None)
                        c = got[0] if got else False
                    else:
                        c = self.truth(self.ev(t, f2, s), f2, s)
                    k = self.known(s, c)
                    if k is None:
                        conds = conds + [c]
                    elif not k:
                        ok = False
                        break
                if ok:
                    go(i + 1, s, conds)

        go(0, st, [])

    def gathered(self, n, fr, st):
        out = []
        self.comp(n.generators, fr, st, lambda f, s, c: out.append((c, self.ev(n.elt, f, s))))
        if any(c is not True for c, _ in out):
            return Some(out)
        return [x for _, x in out]

    def e_ListComp(self, n, fr, st):
        out = self.gathered(n, fr, st)
        return out if isinstance(out, Some) else self.new_list(st, out)

    def e_GeneratorExp(self, n, fr, st):
        out = self.gathered(n, fr, st)
        return out if isinstance(out, Some) else Lazy(out)

    def e_SetComp(self, n, fr, st):
        out = self.gathered(n, fr, st)
        if isinstance(out, Some):
            raise Unsupported("symbolic comprehension filter")
        return self.alloc(st, Obj("set", items=self.distinct(out, fr, st)))

    def e_DictComp(self, n, fr, st):
        d = {}

        def emit(f, s, c):
            if c is not True:
                raise Unsupported("symbolic comprehension filter")
            k = self.key(self.ev(n.key, f, s), s, f)
            d[k] = self.ev(n.value, f, s)

        self.comp(n.generators, fr, st, emit)
        return self.new_dict(st, d)

    def e_Starred(self, n, fr, st):
        raise Unsupported("starred")

    def e_Yield(self, n, fr, st):
        if not getattr(n, "osa_plain", True):
            raise Unsupported("value sent to a generator")
        if fr.yields is None:
            raise Unsupported("yield")
        if st.pc[: len(fr.entry_pc)] != fr.entry_pc or len(st.pc) != len(fr.entry_pc):
            raise Unsupported("conditional yield")
        fr.yields.append(self.ev(n.value, fr, st) if n.value else None)
        return None

    def e_Call(self, n, fr, st):
        line = n.lineno
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            if fr.cls is None or fr.self_ is None:
                raise Unsupported("super()")
            return Super(fr.cls, fr.self_)
        f = self.ev(n.func, fr, st)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.ev(a.value, fr, st), fr, st))
            else:
                args.append(self.ev(a, fr, st))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                o = self.ev(k.value, fr, st)
                kw.update(st.get(o.id).f)
            else:
                kw[k.arg] = self.ev(k.value, fr, st)
        fr.line = line
        return self.call(f, args, kw, fr, st)

    # -------------------------------------------------------- calls
    def call(self, f, args, kw, fr, st):
        if isinstance(f, Phi):
            return self.split(st, f.c, lambda s: self.call(f.a, args, kw, fr, s), lambda s: self.call(f.b, args, kw, fr, s))
        if isinstance(f, Bound):
            if isinstance(f.func, FuncVal):
                return self.call_func(f.func, [f.self_] + list(args), kw, fr, st)
            if isinstance(f.func, Builtin):
                return self.method(f.func.name, f.self_, args, kw, fr, st)
            return self.call(f.func, [f.self_] + list(args), kw, fr, st)
        if isinstance(f, FuncVal):
            return self.call_func(f, list(args), kw, fr, st)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kw, fr, st)
        if isinstance(f, Builtin):
            if f.fn is not None:
                return self.lift(f, args, kw, fr, st)
            return self.builtin(f.name, args, kw, fr, st)
        if isinstance(f, Partial):
            return self.call(f.f, list(f.args) + list(args), {**f.kwargs, **kw}, fr, st)
        if isinstance(f, Ref) and st.get(f.id).kind == "inst":
            return self.call(self.getattr(f, "__call__", fr, st), args, kw, fr, st)
        raise Unsupported("call of %s at %s" % (type(f).__name__, self.loc(fr)))

    def lift(self, f, args, kw, fr, st):
        for i, a in enumerate(args):
            if isinstance(a, Phi):
                def go(x):
                    return lambda s: self.lift(f, args[:i] + [x] + args[i + 1 :], kw, fr, s)
                return self.split(st, a.c, go(a.a), go(a.b))
        return f.fn(self, args, kw, fr, st)

    def instantiate(self, cls, args, kw, fr, st):
        stub = self.stubs.get(cls.qual)
        if stub is not None:
            return stub(self, st, list(args), kw)
        if any(isinstance(b, Builtin) and b.name.startswith("exc.") for k in cls.mro() for b in k.bases):
            return ExcVal(cls.name, tuple(args))
        if getattr(cls, "members", None):
            for m in cls.members:
                x = m.value if isinstance(m, EnumVal) else m
                if self.rel("==", x, args[0], fr, st) is True:
                    return m
            raise Unsupported("enumeration member by computed value")
        new = self.find(cls, "__new__", st)
        if isinstance(new, FuncVal):
            r = self.call_func(new, [cls] + list(args), kw, fr, st)
            if not isinstance(r, Ref):
                if isinstance(r, Phi):
                    raise Unsupported("__new__ that chooses")
                return r
            if st.get(r.id).kind != "inst" or cls not in st.get(r.id).cls.mro():
                return r
        else:
            r = self.alloc(st, Obj("inst", cls, {}))
        init = self.find(cls, "__init__", st)
        if isinstance(init, FuncVal):
            self.call_func(init, [r] + list(args), kw, fr, st)
        elif cls.dataclass is not None or any(k.dataclass for k in cls.mro()):
            self.dataclass_init(cls, r, list(args), kw, fr, st)
        elif (args or kw) and not isinstance(new, FuncVal):
            raise Raised("TypeError", st, "%s() takes no arguments" % cls.name)
        return r

    def fields(self, cls):
        fields = []
        for k in reversed(cls.mro()):
            for nm in (k.dataclass or {}).get("fields", []):
                if nm not in fields:
                    fields.append(nm)
        return fields

    def dataclass_init(self, cls, r, args, kw, fr, st):
        fields = self.fields(cls)
        kw = dict(kw)
        for nm in fields:
            if args:
                v = args.pop(0)
            elif nm in kw:
                v = kw.pop(nm)
            else:
                dv = self.find(cls, nm, st)
                if isinstance(dv, ExcVal) and dv.name == "field":
                    d = dv.args[0]
                    v = d["default"] if "default" in d else self.call(d["default_factory"], [], {}, fr, st)
                elif self.has_cls(cls, nm, st):
                    v = dv
                else:
                    raise Raised("TypeError", st, "missing " + nm)
            st.w(r.id).f[nm] = v
        if args or kw:
            raise Raised("TypeError", st, "too many arguments")
        post = self.find(cls, "__post_init__", st)
        if isinstance(post, FuncVal):
            self.call_func(post, [r], {}, fr, st)

    def call_func(self, f, args, kw, fr, st):
        tick()
        stub = self.stubs.get(f.qual)
        self.calls[f.qual] = self.calls.get(f.qual, 0) + 1
        caller = fr.func.qual if fr is not None and fr.func else "<module>"
        self.call_edges.add((caller, f.qual))
        if stub is not None:
            r = stub(self, st, list(args), kw)
            if r is not NotImplemented:
                return r
        if self.depth > self.maxdepth:
            raise Unsupported("call depth: %s" % f.qual)
        if self.callstack.count(f.qual) > 12:
            raise Unsupported("recursion: %s" % f.qual)
        self.visited.add(f.qual)
        scope = self.alloc(st, Obj("scope", f={}))
        n = f.node
        fr2 = Frame(scope.id, f.closure, f.module, f, f.cls, self.locals_of(n), args[0] if args else None)
        fr2.line = getattr(n, "lineno", 0)
        fr2.entry_pc = st.pc
        self.bind_args(f, args, kw, fr2, st)
        if isinstance(n, ast.Lambda):
            self.depth += 1
            try:
                return self.ev(n.body, fr2, st)
            finally:
                self.depth -= 1
        isgen = self.is_gen(n)
        if isgen:
            if f.kind == "managed" or getattr(f, "managed", False):
                return Managed(f, list(args), kw)
            fr2.yields = []
        pc = st.pc
        self.depth += 1
        self.callstack.append(f.qual)
        try:
            out = self.block(n.body, fr2, st.fork())
        finally:
            self.depth -= 1
            self.callstack.pop()
        res = None
        if out.next is not None:
            g, s = out.next
            out.ret = self.join(out.ret, (g, None, s))
        if out.brk or out.cont:
            raise Unsupported("break outside loop")
        if out.ret is None:
            e = out.exc[1] if out.exc else "Exception"
            if out.exc:
                st.adopt(out.exc[2], pc)
            raise Raised(e, st, "in %s" % f.qual)
        if out.exc is not None and out.exc[0] is not False:
            g = out.exc[0]
            self.cond_raise(g, out.exc[1], out.exc[2], pc)
            ng = D.c_not(g)
            st.adopt(out.ret[2], pc + ((ng,) if isinstance(ng, C) else ()))
        else:
            st.adopt(out.ret[2], pc)
        res = out.ret[1]
        if not fr2.captured and scope.id in st.heap:
            del st.heap[scope.id]
        if isgen:
            return Lazy(fr2.yields)
        return res

    def is_gen(self, n):
        k = ("gen", id(n))
        if k not in self._locals:
            r = False
            stack = list(n.body) if isinstance(n.body, list) else [n.body]
            while stack:
                x = stack.pop()
                if isinstance(x, (ast.Yield, ast.YieldFrom)):
                    r = True
                    break
                if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                stack.extend(ast.iter_child_nodes(x))
            self._locals[k] = r
        return self._locals[k]

    def locals_of(self, n):
        if id(n) in self._locals:
            return self._locals[id(n)]
        out = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
        self._locals[id(n)] = out
        return out

    def bind_args(self, f, args, kw, fr, st):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        sc = {}
        kw = dict(kw)
        npos = len(names)
        for i, nm in enumerate(names):
            if i < len(args):
                sc[nm] = args[i]
                if nm in kw:
                    raise Raised("TypeError", st, "duplicate argument " + nm)
            elif nm in kw:
                sc[nm] = kw.pop(nm)
            else:
                j = i - (npos - len(f.defaults))
                if j < 0:
                    raise Raised("TypeError", st, "%s missing argument %s" % (f.qual, nm))
                sc[nm] = f.defaults[j]
        extra = list(args[npos:])
        if a.vararg:
            sc[a.vararg.arg] = tuple(extra)
        elif extra:
            raise Raised("TypeError", st, "%s takes %d arguments, %d given" % (f.qual, npos, len(args)))
        for x in a.kwonlyargs:
            if x.arg in kw:
                sc[x.arg] = kw.pop(x.arg)
            elif x.arg in f.kwdefaults:
                sc[x.arg] = f.kwdefaults[x.arg]
            else:
                raise Raised("TypeError", st, "missing keyword " + x.arg)
        if a.kwarg:
            sc[a.kwarg.arg] = self.new_dict(st, kw)
        elif kw:
            raise Raised("TypeError", st, "%s unexpected keyword %s" % (f.qual, sorted(kw)))
        for nm, x in sc.items():
            if isinstance(x, Lazy):
                sc[nm] = self.keep(x, st)
        st.w(fr.scope).f.update(sc)

    # -------------------------------------------------------- iteration
    def iterate(self, v, fr, st):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Ref):
            o = st.get(v.id)
            if o.kind in ("list", "set"):
                xs = list(o.items)
                if o.cls == "iter" and xs:
                    st.w(v.id).items = []
                return xs
            if o.kind == "dict":
                return [self.unkey(k) for k in o.f]
            if o.kind == "inst":
                if getattr(o.cls, "named", False):
                    return [o.f[k] for k in o.cls.dataclass["fields"]]
                m = self.find(o.cls, "__iter__", st)
                if m is not None:
                    return self.iterate(self.call(Bound(m, v), [], {}, fr, st), fr, st)
                if self.find(o.cls, "__getitem__", st) is not None and self.find(o.cls, "__len__", st) is not None:
                    k = self.const_int(self.call(self.getattr(v, "__len__", fr, st), [], {}, fr, st))
                    if k is not None:
                        return [self.getitem(v, D.const(i), fr, st) for i in range(k)]
        if isinstance(v, ClassVal) and getattr(v, "members", None):
            return list(v.members)
        if isinstance(v, AttrDict):
            return list(st.get(v.ref.id).f)
        if isinstance(v, SymRange):
            raise Unsupported("loop over a symbolic range")
        raise Unsupported("iteration over %s at %s" % (type(v).__name__, self.loc(fr)))

    # -------------------------------------------------------- builtins
    def math_fn(self, name, a, k, fr, st):
        if name in ("isclose",):
            x, y = self.num(a[0]), self.num(a[1])
            rt = self.num(k.get("rel_tol", D.const(F(1, 10**9))))
            at = self.num(k.get("abs_tol", D.const(0)))
            mx = self.minmax(">", [D.absv(x), D.absv(y)], fr, st)
            lim = self.minmax(">", [D.mul(rt, mx), at], fr, st)
            return D.cmp_("<=", D.absv(D.sub(x, y)), lim)
        if name in ("isnan", "isinf"):
            return False
        if name == "isfinite":
            return True
        if name in ("fsum", "prod"):
            xs = [self.num(x) for x in self.iterate(a[0], fr, st)]
            r = D.const(0 if name == "fsum" else 1)
            for x in xs:
                r = D.add(r, x) if name == "fsum" else D.mul(r, x)
            return r
        if name == "sumprod":
            r = D.const(0)
            for x, y in zip(self.iterate(a[0], fr, st), self.iterate(a[1], fr, st)):
                r = D.add(r, D.mul(self.num(x), self.num(y)))
            return r
        if name == "dist":
            xs, ys = self.iterate(a[0], fr, st), self.iterate(a[1], fr, st)
            r = D.const(0)
            for x, y in zip(xs, ys):
                d = D.sub(self.num(x), self.num(y))
                r = D.add(r, D.mul(d, d))
            return D.sqrt(r)
        x = [self.num(v) for v in a]
        try:
            if name in ("sin", "cos", "atan", "sinh", "cosh", "tanh"):
                return D.fn(name, x[0])
            if name == "tan":
                return D.tan(x[0])
            if name == "asinh":
                return D.fn("log", D.add(x[0], D.sqrt(D.add(D.mul(x[0], x[0]), D.const(1)))))
            if name == "acosh":
                self.hazard("sqrt", D.sub(x[0], D.const(1)), fr, st)
                self.domain(D.cmp_("<", x[0], D.const(1)), fr, st)
                return D.fn("log", D.add(x[0], D.sqrt(D.sub(D.mul(x[0], x[0]), D.const(1)))))
            if name == "atanh":
                self.hazard("log", D.sub(D.const(1), D.mul(x[0], x[0])), fr, st)
                return D.div(D.fn("log", D.div(D.add(D.const(1), x[0]), D.sub(D.const(1), x[0]))), D.const(2))
            if name == "exp2":
                return D.fn("exp", D.mul(x[0], D.fn("log", D.const(2))))
            if name in ("asin", "acos"):
                self.hazard(name, x[0], fr, st)
                self.domain(D.c_or(D.cmp_(">", x[0], D.const(1)), D.cmp_("<", x[0], D.const(-1))), fr, st)
                return D.fn(name, x[0])
            if name == "atan2":
                return D.fn("atan2", x[0], x[1])
            if name == "sqrt":
                self.hazard("sqrt", x[0], fr, st)
                self.domain(D.cmp_("<", x[0], D.const(0)), fr, st)
                return D.fn("sqrt", x[0])
            if name == "cbrt":
                return D.power(x[0], D.const(F(1, 3)))
            if name in ("log", "log10", "log2", "log1p"):
                y = x[0] if name != "log1p" else D.add(x[0], D.const(1))
                self.hazard("log", y, fr, st)
                r = D.fn("log", y)
                if name == "log10":
                    return D.div(r, D.fn("log", D.const(10)))
                if name == "log2":
                    return D.div(r, D.fn("log", D.const(2)))
                if len(x) > 1:
                    return D.div(r, D.fn("log", x[1]))
                return r
            if name == "exp":
                return D.fn("exp", x[0])
            if name == "expm1":
                return D.sub(D.fn("exp", x[0]), D.const(1))
            if name == "floor":
                return D.floor(x[0])
            if name == "ceil":
                return D.ceil(x[0])
            if name == "trunc":
                return self.trunc(x[0])
            if name == "fabs":
                return D.absv(x[0])
            if name == "radians":
                return D.radians(x[0])
            if name == "degrees":
                return D.mul(D.const(180 / PI), x[0])
            if name == "hypot":
                r = D.const(0)
                for v in x:
                    r = D.add(r, D.mul(v, v))
                return D.sqrt(r)
            if name == "pow":
                return self.arith("pow", x[0], x[1], fr, st)
            if name == "fmod":
                q = D.div(x[0], x[1])
                return D.sub(x[0], D.mul(x[1], self.trunc(q)))
            if name == "remainder":
                q = D.div(x[0], x[1])
                return D.sub(x[0], D.mul(x[1], D.floor(D.add(q, D.const(F(1, 2))))))
            if name == "modf":
                t = self.trunc(x[0])
                return (D.sub(x[0], t), t)
            if name == "copysign":
                m = D.absv(x[0])
                return D.ite(D.cmp_("<", x[1], D.const(0)), D.neg(m), m)
            if name == "factorial" and x[0].op == "const":
                return D.const(math.factorial(int(x[0].val)))
            if name in ("comb", "gcd") and all(v.op == "const" for v in x):
                return D.const(getattr(math, name)(*[int(v.val) for v in x]))
            if name == "fma":
                return D.add(D.mul(x[0], x[1]), x[2])
        except D.DagError as e:
            raise Raised("ValueError", st, str(e))
        except ZeroDivisionError:
            raise Raised("ZeroDivisionError", st)
        raise Unsupported("math." + name)

    def domain(self, bad, fr, st):
        """inside try: a domain error becomes a branch"""
        if self.try_frames and isinstance(bad, C) and self.known(st, bad) is None:
            def boom(s):
                raise Raised("ValueError", s)
            self.split(st, bad, boom, lambda s: None)

    def trunc(self, x):
        if x.op == "const":
            return D.const(int(x.val))
        if x.integer:
            return x
        return D.ite(D.cmp_("<", x, D.const(0)), D.ceil(x), D.floor(x))

    def minmax(self, op, xs, fr, st, key=None):
        fin = [x for x in xs if not (isinstance(x, Opaque) and x.what in ("inf", "-inf"))]
        if fin and len(fin) < len(xs) and not key:
            if any(isinstance(x, Opaque) and x.what == ("-inf" if op == "<" else "inf") for x in xs):
                return next(x for x in xs if isinstance(x, Opaque))
            xs = fin
        best = xs[0]
        kb = self.call(key, [best], {}, fr, st) if key else best
        for x in xs[1:]:
            kx = self.call(key, [x], {}, fr, st) if key else x
            c = self.rel(op, kx, kb, fr, st)
            k = self.known(st, c)
            if k is not None:
                c = k
            best = self.phi(c, x, best)
            kb = self.phi(c, kx, kb)
        return best

    def draw(self, kind):
        k = self.draws[kind] = self.draws.get(kind, 0) + 1
        if kind == "gauss":
            return D.var("gauss#%d" % k)
        return D.var("unif#%d" % k, lo=0.0, hi=1.0)

    def builtin(self, name, a, kw, fr, st):
        m = getattr(self, "b_" + name.replace(".", "_"), None)
        if m is not None:
            # lift over gated operands
            if name not in ("isinstance", "list", "tuple", "hasattr"):
                for i, x in enumerate(a):
                    if isinstance(x, Phi):
                        def go(y):
                            return lambda s: self.builtin(name, a[:i] + [y] + a[i + 1 :], kw, fr, s)
                        return self.split(st, x.c, go(x.a), go(x.b))
            return m(list(a), kw, fr, st)
        if name in SHIMMED:
            m = self.load("osa_shims", st, SHIMS)
            return self.call(self.getattr(m, name.rsplit(".", 1)[1], fr, st), a, kw, fr, st)
        if name.startswith("exc."):
            return ExcVal(name[4:], tuple(a))
        if name.startswith(("typing.", "abc.", "warnings.", "logging.", "typing_extensions.")):
            if name in ("typing.cast",):
                return a[1]
            if a and isinstance(a[0], (FuncVal, ClassVal)):
                return a[0]
            return Opaque(name)
        raise Unsupported("builtin %s at %s" % (name, self.loc(fr)))

    def b_noop(self, a, kw, fr, st):
        return None

    def b_abs(self, a, kw, fr, st):
        if isinstance(a[0], Ref):
            return self.call(self.getattr(a[0], "__abs__", fr, st), [], {}, fr, st)
        return D.absv(self.num(a[0]))

    def _mm(self, op, a, kw, fr, st):
        if len(a) == 1 and isinstance(a[0], Some):
            def pick(items, best, s):
                if not items:
                    if best is None:
                        if "default" in kw:
                            return kw["default"]
                        raise Raised("ValueError", s)
                    return best[0]
                (c, x), rest = items[0], items[1:]
                def take(t):
                    return pick(rest, (x if best is None else self.minmax(op, [best[0], x], fr, t, kw.get("key")),), t)
                return self.split(s, c, take, lambda t: pick(rest, best, t))
            if len(a[0].items) > 8:
                raise Unsupported("symbolic comprehension filter")
            return pick(a[0].items, None, st)
        xs = self.iterate(a[0], fr, st) if len(a) == 1 else a
        if not xs:
            if "default" in kw:
                return kw["default"]
            raise Raised("ValueError", st)
        return self.minmax(op, [self.num(x) if isbool(x) else x for x in xs], fr, st, kw.get("key"))

    def b_min(self, a, kw, fr, st):
        return self._mm("<", a, kw, fr, st)

    def b_max(self, a, kw, fr, st):
        return self._mm(">", a, kw, fr, st)

    def b_sum(self, a, kw, fr, st):
        r = a[1] if len(a) > 1 else kw.get("start", D.const(0))
        if isinstance(a[0], Some):
            for c, x in a[0].items:
                r0 = r
                r = self.split(st, c, lambda s: self.binop(ast.Add, r0, x, fr, s), lambda s: r0)
            return r
        for x in self.iterate(a[0], fr, st):
            r = self.binop(ast.Add, r, x, fr, st)
        return r

    def b_len(self, a, kw, fr, st):
        v = a[0]
        if isinstance(v, Some):
            r = D.const(0)
            for c, _ in v.items:
                r = D.add(r, self.num(c))
            return r
        if isinstance(v, AttrDict):
            return D.const(len(st.get(v.ref.id).f))
        if isinstance(v, ClassVal):
            return D.const(len(v.members))
        if isinstance(v, (tuple, str)):
            return D.const(len(v))
        o = st.get(v.id)
        if o.kind in ("list", "set"):
            return D.const(len(o.items))
        if o.kind == "dict":
            return D.const(len(o.f))
        return self.call(self.getattr(v, "__len__", fr, st), [], {}, fr, st)

    def b_range(self, a, kw, fr, st):
        xs = [self.num(x) for x in a]
        start, stop, step = (D.const(0), xs[0], D.const(1)) if len(xs) == 1 else (xs[0], xs[1], xs[2] if len(xs) > 2 else D.const(1))
        if all(x.op == "const" for x in (start, stop, step)):
            return tuple(D.const(i) for i in range(int(start.val), int(stop.val), int(step.val)))
        return SymRange(start, stop, step)

    def b_enumerate(self, a, kw, fr, st):
        s = a[1] if len(a) > 1 else kw.get("start", D.const(0))
        return Lazy((D.add(s, D.const(i)), x) for i, x in enumerate(self.iterate(a[0], fr, st)))

    def b_zip(self, a, kw, fr, st):
        return Lazy(zip(*self.together(a, fr, st)))

    def together(self, a, fr, st):
        """the sequences that are run through side by side"""
        fin = [None if isinstance(x, Endless) else self.iterate(x, fr, st) for x in a]
        n = min((len(x) for x in fin if x is not None), default=None)
        if n is None and fin:
            raise Unsupported("endless iteration at " + self.loc(fr))
        return [x if x is not None else [v.nth(i) for i in range(n)] for x, v in zip(fin, a)]

    def b_map(self, a, kw, fr, st):
        return Lazy(self.call(a[0], list(xs), {}, fr, st) for xs in zip(*self.together(a[1:], fr, st)))

    def b_filter(self, a, kw, fr, st):
        out = []
        for x in self.iterate(a[1], fr, st):
            c = self.truth(self.call(a[0], [x], {}, fr, st) if a[0] is not None else x, fr, st)
            if not isinstance(c, bool):
                raise Unsupported("symbolic filter")
            if c:
                out.append(x)
        return Lazy(out)

    def b_any(self, a, kw, fr, st):
        if isinstance(a[0], Some):
            return D.c_or(*[D.c_and(c, self.truth(x, fr, st)) for c, x in a[0].items])
        return D.c_or(*[self.truth(x, fr, st) for x in self.iterate(a[0], fr, st)])

    def b_all(self, a, kw, fr, st):
        if isinstance(a[0], Some):
            return D.c_and(*[D.c_or(D.c_not(c), self.truth(x, fr, st)) for c, x in a[0].items])
        return D.c_and(*[self.truth(x, fr, st) for x in self.iterate(a[0], fr, st)])

    def b_float(self, a, kw, fr, st):
        if not a:
            return D.const(0)
        if isinstance(a[0], str):
            try:
                return D.const(float(a[0]))
            except (ValueError, OverflowError, D.DagError):
                t = a[0].strip().lower().lstrip("+")
                return Opaque({"inf": "inf", "infinity": "inf", "-inf": "-inf", "-infinity": "-inf"}.get(t, "nan"))
        if isinstance(a[0], Ref):
            return self.call(self.getattr(a[0], "__float__", fr, st), [], {}, fr, st)
        if isinstance(a[0], Opaque):
            return a[0]
        return self.num(a[0])

    def b_int(self, a, kw, fr, st):
        if not a:
            return D.const(0)
        if isinstance(a[0], str):
            return D.const(int(a[0]))
        return self.trunc(self.num(a[0]))

    def b_bool(self, a, kw, fr, st):
        return self.truth(a[0], fr, st) if a else False

    def b_str(self, a, kw, fr, st):
        if a and isinstance(a[0], str):
            return a[0]
        if not a:
            return ""
        if isinstance(a[0], N) and a[0].integer and self.const_int(a[0]) is not None and len(a) == 1:
            return str(self.const_int(a[0]))
        return Opaque("str")

    b_repr = b_format = b_str

    def b_print(self, a, kw, fr, st):
        return None

    def b_round(self, a, kw, fr, st):
        x = self.num(a[0])
        if len(a) > 1 and a[1] is not None:
            k = self.const_int(a[1])
            if k is None:
                raise Unsupported("round digits")
            p = D.const(F(10) ** k)
            return D.div(D.floor(D.add(D.mul(x, p), D.const(F(1, 2)))), p)
        if x.integer:
            return x
        if x.op == "const":
            return D.const(round(x.val))
        return D.floor(D.add(x, D.const(F(1, 2))))

    def b_divmod(self, a, kw, fr, st):
        x, y = self.num(a[0]), self.num(a[1])
        q = D.floor(D.div(x, y))
        return (q, D.sub(x, D.mul(y, q)))

    def b_pow(self, a, kw, fr, st):
        return self.arith("pow", self.num(a[0]), self.num(a[1]), fr, st)

    def b_isinstance(self, a, kw, fr, st):
        v, t = a
        ts = t if isinstance(t, tuple) else (t,)
        if isinstance(v, Phi):
            return self.phi(v.c, self.b_isinstance([v.a, t], kw, fr, st), self.b_isinstance([v.b, t], kw, fr, st))
        for x in ts:
            if isinstance(x, tuple):
                if self.b_isinstance([v, x], kw, fr, st):
                    return True
            elif isinstance(x, ClassVal):
                if isinstance(v, Ref) and st.get(v.id).kind == "inst" and x in st.get(v.id).cls.mro():
                    return True
            elif isinstance(x, Builtin):
                n = x.name
                if n in ("float", "numbers.Real", "numbers.Number") and isinstance(v, N):
                    if n == "float" and v.integer and v.op == "const":
                        continue
                    return True
                if n == "int" and (isinstance(v, N) and v.integer or isinstance(v, bool)):
                    return True
                if n == "bool" and isbool(v):
                    return True
                if n == "str" and isinstance(v, (str, SymStr)):
                    return True
                if n in ("list", "dict", "set") and isinstance(v, Ref) and st.get(v.id).kind == n:
                    return True
                if n == "tuple" and isinstance(v, tuple):
                    return True
                if n == "object":
                    return True
            elif isinstance(x, Opaque):
                raise Unsupported("isinstance with unknown type")
        return False

    def b_issubclass(self, a, kw, fr, st):
        return a[1] in a[0].mro()

    def b_type(self, a, kw, fr, st):
        v = a[0]
        if isinstance(v, Ref):
            o = st.get(v.id)
            return o.cls if o.kind == "inst" else Builtin(o.kind)
        if isinstance(v, N):
            return Builtin("int" if v.integer else "float")
        if isinstance(v, str):
            return Builtin("str")
        return Opaque("type")

    def b_getattr(self, a, kw, fr, st):
        if not isinstance(a[1], str):
            raise Unsupported("getattr with computed name")
        try:
            return self.getattr(a[0], a[1], fr, st)
        except Raised as e:
            if e.exc == "AttributeError" and len(a) > 2:
                return a[2]
            raise

    def b_setattr(self, a, kw, fr, st):
        if not isinstance(a[1], str):
            raise Unsupported("setattr with computed name")
        self.setattr(a[0], a[1], a[2], fr, st)

    def b_hasattr(self, a, kw, fr, st):
        v = a[0]
        if isinstance(v, Ref) and st.get(v.id).kind == "inst":
            o = st.get(v.id)
            if a[1] in o.f:
                x = o.f[a[1]]
                if isinstance(x, Phi) and UNBOUND in (x.a, x.b):
                    return D.c_not(x.c) if x.a is UNBOUND else x.c
                return x is not UNBOUND
            return self.has_cls(o.cls, a[1], st)
        try:
            self.getattr(v, a[1], fr, st)
            return True
        except Raised:
            return False

    def b_list(self, a, kw, fr, st):
        return self.new_list(st, self.iterate(a[0], fr, st) if a else [])

    def b_tuple(self, a, kw, fr, st):
        return tuple(self.iterate(a[0], fr, st)) if a else ()

    def b_set(self, a, kw, fr, st):
        return self.alloc(st, Obj("set", items=self.iterate(a[0], fr, st) if a else []))

    b_frozenset = b_set

    def b_dict(self, a, kw, fr, st):
        d = {}
        if a:
            if isinstance(a[0], Ref) and st.get(a[0].id).kind == "dict":
                d.update(st.get(a[0].id).f)
            else:
                for k, v in [self.iterate(x, fr, st) for x in self.iterate(a[0], fr, st)]:
                    d[self.key(k, st, fr)] = v
        d.update(kw)
        return self.new_dict(st, d)

    def b_reversed(self, a, kw, fr, st):
        if isinstance(a[0], Ref) and st.get(a[0].id).kind == "inst":
            m = self.find(st.get(a[0].id).cls, "__reversed__", st)
            if m is not None:
                return self.call(Bound(m, a[0]), [], {}, fr, st)
        return Lazy(reversed(self.iterate(a[0], fr, st)))

    def b_sorted(self, a, kw, fr, st):
        xs = self.iterate(a[0], fr, st)
        ks = [self.call(kw["key"], [x], {}, fr, st) if kw.get("key") else x for x in xs]
        if all(isinstance(k, N) and k.op == "const" for k in ks):
            order = sorted(range(len(xs)), key=lambda i: ks[i].val, reverse=kw.get("reverse") is True)
            return self.new_list(st, [xs[i] for i in order])
        if all(isinstance(k, str) for k in ks):
            order = sorted(range(len(xs)), key=lambda i: ks[i], reverse=kw.get("reverse") is True)
            return self.new_list(st, [xs[i] for i in order])
        if len(xs) <= 6 and isinstance(kw.get("reverse", False), bool):
            op = ">" if kw.get("reverse") else "<"
            for r in range(len(xs)):
                for i in range(len(xs) - 1 - r):
                    c = self.rel(op, ks[i + 1], ks[i], fr, st)
                    k = self.known(st, c)
                    c = c if k is None else k
                    xs[i], xs[i + 1] = self.phi(c, xs[i + 1], xs[i]), self.phi(c, xs[i], xs[i + 1])
                    ks[i], ks[i + 1] = self.phi(c, ks[i + 1], ks[i]), self.phi(c, ks[i], ks[i + 1])
            return self.new_list(st, xs)
        raise Unsupported("sort of symbolic values")

    def b_iter(self, a, kw, fr, st):
        if isinstance(a[0], Ref) and st.get(a[0].id).cls == "iter":
            return a[0]
        return Lazy(self.iterate(a[0], fr, st))

    def b_next(self, a, kw, fr, st):
        if isinstance(a[0], Some):
            def go(xs, s):
                if not xs:
                    if len(a) > 1:
                        return a[1]
                    raise Raised("StopIteration", s)
                return self.split(s, xs[0][0], lambda t: xs[0][1], lambda t: go(xs[1:], t))
            return go(a[0].items, st)
        if isinstance(a[0], Endless):
            raise Unsupported("endless iteration at " + self.loc(fr))
        if isinstance(a[0], Ref) and st.get(a[0].id).kind == "inst":
            return self.call(self.getattr(a[0], "__next__", fr, st), [], {}, fr, st)
        if isinstance(a[0], tuple):
            if a[0]:
                return a[0][0]
        elif isinstance(a[0], Ref) and st.get(a[0].id).kind == "list":
            o = st.w(a[0].id)
            if o.items:
                return o.items.pop(0)
        if len(a) > 1:
            return a[1]
        raise Raised("StopIteration", st)

    def b_callable(self, a, kw, fr, st):
        return isinstance(a[0], (FuncVal, Bound, ClassVal, Builtin, Partial))

    def b_id(self, a, kw, fr, st):
        if isinstance(a[0], Ref):
            return D.const(a[0].id)
        raise Unsupported("id")

    def b_hash(self, a, kw, fr, st):
        return a[0]

    def b_vars(self, a, kw, fr, st):
        return self.getattr(a[0], "__dict__", fr, st)

    def b_object___new__(self, a, kw, fr, st):
        return self.alloc(st, Obj("inst", a[0], {}))

    def b_object___setattr__(self, a, kw, fr, st):
        st.w(a[0].id).f[a[1]] = a[2]

    def b_object(self, a, kw, fr, st):
        return self.alloc(st, Obj("inst", None, {}))

    def b_slice(self, a, kw, fr, st):
        raise Unsupported("slice object")

    def b_super(self, a, kw, fr, st):
        if len(a) == 2:
            return Super(a[0], a[1])
        raise Unsupported("super")

    def b_property(self, a, kw, fr, st):
        f = a[0]
        p = FuncVal(f.node, f.qual, f.module, f.closure, f.defaults, f.kwdefaults, "property", f.cls)
        if len(a) > 1:
            p.setter = a[1]
        return p

    def b_staticmethod(self, a, kw, fr, st):
        return self.deco("staticmethod", a[0])

    def b_classmethod(self, a, kw, fr, st):
        return self.deco("classmethod", a[0])

    def b_random_gauss(self, a, kw, fr, st):
        mu = self.num(a[0]) if a else self.num(kw.get("mu", D.const(0)))
        sg = self.num(a[1]) if len(a) > 1 else self.num(kw.get("sigma", D.const(1)))
        return D.add(mu, D.mul(sg, self.draw("gauss")))

    b_random_normalvariate = b_random_gauss

    def b_random_uniform(self, a, kw, fr, st):
        lo, hi = self.num(a[0]), self.num(a[1])
        return D.add(lo, D.mul(D.sub(hi, lo), self.draw("unif")))

    def b_random_random(self, a, kw, fr, st):
        return self.draw("unif")

    def b_random_seed(self, a, kw, fr, st):
        return None

    def b_copy_copy(self, a, kw, fr, st):
        v = a[0]
        if not isinstance(v, Ref):
            return v
        o = st.get(v.id)
        if o.kind == "inst":
            m = self.find(o.cls, "__copy__", st)
            if m is not None:
                return self.call(Bound(m, v), [], {}, fr, st)
        n = o.clone()
        n.origin = None
        return self.alloc(st, n)

    def b_copy_deepcopy(self, a, kw, fr, st):
        memo = {}

        def go(v):
            if isinstance(v, tuple):
                return tuple(go(x) for x in v)
            if isinstance(v, Phi):
                return self.phi(v.c, go(v.a), go(v.b))
            if not isinstance(v, Ref):
                return v
            if v.id in memo:
                return memo[v.id]
            n = st.get(v.id).clone()
            n.origin = None
            r = self.alloc(st, n)
            memo[v.id] = r
            if n.f is not None:
                n.f = {k: go(x) for k, x in n.f.items()}
            if n.items is not None:
                n.items = [go(x) for x in n.items]
            return r

        return go(a[0])

    def b_functools_reduce(self, a, kw, fr, st):
        xs = self.iterate(a[1], fr, st)
        if len(a) > 2:
            r = a[2]
        else:
            r, xs = xs[0], xs[1:]
        for x in xs:
            r = self.call(a[0], [r, x], {}, fr, st)
        return r

    def b_functools_partial(self, a, kw, fr, st):
        return Partial(a[0], a[1:], kw)

    def b_functools_lru_cache(self, a, kw, fr, st):
        if a and isinstance(a[0], FuncVal):
            m = self.load("osa_remember", st, REMEMBER)
            return self.call(self.getattr(m, "remember", fr, st), [a[0]], {}, fr, st)
        return Builtin("lru_cache", lambda it, aa, k, f, s: it.b_functools_lru_cache(aa, {}, f, s))

    b_functools_cache = b_functools_lru_cache

    def b_enum_auto(self, a, kw, fr, st):
        return Builtin("enum.auto()")

    def b_enum_unique(self, a, kw, fr, st):
        return a[0]

    def b_types_MappingProxyType(self, a, kw, fr, st):
        return a[0]

    def b_typing_NewType(self, a, kw, fr, st):
        return Builtin("identity")

    def b_collections_OrderedDict(self, a, kw, fr, st):
        return self.b_dict(a, kw, fr, st)

    def b_contextlib_contextmanager(self, a, kw, fr, st):
        a[0].managed = True
        return a[0]

    def b_functools_wraps(self, a, kw, fr, st):
        return Builtin("identity")

    def b_functools_cached_property(self, a, kw, fr, st):
        f = a[0]
        return FuncVal(f.node, f.qual, f.module, f.closure, f.defaults, f.kwdefaults, "cached", f.cls)

    def b_identity(self, a, kw, fr, st):
        return a[0]

    def b_operator_add(self, a, kw, fr, st):
        return self.binop(ast.Add, a[0], a[1], fr, st)

    def b_operator_mul(self, a, kw, fr, st):
        return self.binop(ast.Mult, a[0], a[1], fr, st)

    def b_operator_sub(self, a, kw, fr, st):
        return self.binop(ast.Sub, a[0], a[1], fr, st)

    def b_operator_truediv(self, a, kw, fr, st):
        return self.binop(ast.Div, a[0], a[1], fr, st)

    def b_operator_pow(self, a, kw, fr, st):
        return self.binop(ast.Pow, a[0], a[1], fr, st)

    def b_operator_mod(self, a, kw, fr, st):
        return self.binop(ast.Mod, a[0], a[1], fr, st)

    def b_operator_matmul(self, a, kw, fr, st):
        return self.binop(ast.MatMult, a[0], a[1], fr, st)

    def b_operator_floordiv(self, a, kw, fr, st):
        return self.binop(ast.FloorDiv, a[0], a[1], fr, st)

    def b_operator_lt(self, a, kw, fr, st):
        return self.rel("<", a[0], a[1], fr, st)

    def b_operator_le(self, a, kw, fr, st):
        return self.rel("<=", a[0], a[1], fr, st)

    def b_operator_gt(self, a, kw, fr, st):
        return self.rel(">", a[0], a[1], fr, st)

    def b_operator_ge(self, a, kw, fr, st):
        return self.rel(">=", a[0], a[1], fr, st)

    def b_operator_eq(self, a, kw, fr, st):
        return self.rel("==", a[0], a[1], fr, st)

    def b_operator_ne(self, a, kw, fr, st):
        return self.rel("!=", a[0], a[1], fr, st)

    def b_operator_not_(self, a, kw, fr, st):
        return D.c_not(self.truth(a[0], fr, st))

    def b_operator_getitem(self, a, kw, fr, st):
        return self.getitem(a[0], a[1], fr, st)

    def b_operator_methodcaller(self, a, kw, fr, st):
        return Builtin("methodcaller", lambda it, aa, k, f, s: it.call(it.getattr(aa[0], a[0], f, s), list(a[1:]), kw, f, s))

    def b_operator_neg(self, a, kw, fr, st):
        return self.unary(ast.USub(), a[0], fr, st)

    def b_operator_attrgetter(self, a, kw, fr, st):
        names = a
        def get(it, aa, k, fr2, st2):
            def one(nm):
                v = aa[0]
                for p in nm.split("."):
                    v = it.getattr(v, p, fr2, st2)
                return v
            r = [one(nm) for nm in names]
            return r[0] if len(r) == 1 else tuple(r)
        return Builtin("attrgetter", get)

    def b_operator_itemgetter(self, a, kw, fr, st):
        keys = a
        return Builtin("itemgetter", lambda it, aa, k, f, s: it.getitem(aa[0], keys[0], f, s) if len(keys) == 1 else tuple(it.getitem(aa[0], x, f, s) for x in keys))

    def b_itertools_product(self, a, kw, fr, st):
        import itertools
        rep = self.const_int(kw["repeat"]) if "repeat" in kw else 1
        return tuple(itertools.product(*[self.iterate(x, fr, st) for x in a] * rep))

    def b_itertools_chain(self, a, kw, fr, st):
        return tuple(y for x in a for y in self.iterate(x, fr, st))

    def b_itertools_chain_from_iterable(self, a, kw, fr, st):
        return Lazy(y for x in self.iterate(a[0], fr, st) for y in self.iterate(x, fr, st))

    def b_itertools_count(self, a, kw, fr, st):
        s0 = a[0] if a else kw.get("start", D.const(0))
        d = a[1] if len(a) > 1 else kw.get("step", D.const(1))
        return Endless(lambda i: D.add(self.num(s0), D.mul(self.num(d), D.const(i))))

    def b_itertools_cycle(self, a, kw, fr, st):
        xs = self.iterate(a[0], fr, st)
        return Endless(lambda i: xs[i % len(xs)])

    def b_itertools_islice(self, a, kw, fr, st):
        ix = [None if x is None else self.const_int(x) for x in a[1:]]
        if any(x is not None and i is None for x, i in zip(a[1:], ix)):
            raise Unsupported("symbolic slice")
        sl = slice(*ix)
        if isinstance(a[0], Endless):
            return Lazy(a[0].nth(i) for i in range(sl.start or 0, sl.stop, sl.step or 1))
        return Lazy(self.iterate(a[0], fr, st)[sl])

    def b_itertools_zip_longest(self, a, kw, fr, st):
        import itertools
        return Lazy(itertools.zip_longest(*[self.iterate(x, fr, st) for x in a], fillvalue=kw.get("fillvalue")))

    def b_itertools_pairwise(self, a, kw, fr, st):
        xs = self.iterate(a[0], fr, st)
        return Lazy(zip(xs, xs[1:]))

    def b_itertools_combinations(self, a, kw, fr, st):
        import itertools
        return Lazy(itertools.combinations(self.iterate(a[0], fr, st), self.const_int(a[1])))

    def b_itertools_permutations(self, a, kw, fr, st):
        import itertools
        return Lazy(itertools.permutations(self.iterate(a[0], fr, st), self.const_int(a[1]) if len(a) > 1 else None))

    def b_itertools_batched(self, a, kw, fr, st):
        xs, n = self.iterate(a[0], fr, st), self.const_int(a[1])
        return Lazy(tuple(xs[i : i + n]) for i in range(0, len(xs), n))

    def b_itertools_takewhile(self, a, kw, fr, st):
        out = []
        for x in self.iterate(a[1], fr, st):
            k = self.known(st, self.truth(self.call(a[0], [x], {}, fr, st), fr, st))
            if k is None:
                raise Unsupported("symbolic takewhile")
            if not k:
                break
            out.append(x)
        return Lazy(out)

    def b_itertools_accumulate(self, a, kw, fr, st):
        out, r = [], None
        for i, x in enumerate(self.iterate(a[0], fr, st)):
            r = x if i == 0 else (self.call(a[1], [r, x], {}, fr, st) if len(a) > 1 else self.binop(ast.Add, r, x, fr, st))
            out.append(r)
        return tuple(out)

    def b_itertools_repeat(self, a, kw, fr, st):
        if len(a) > 1:
            k = self.const_int(a[1])
            if k is None:
                return SymRange(D.const(0), self.num(a[1]), D.const(1))
            return tuple([a[0]] * k)
        return Endless(lambda i: a[0])

    def b_itertools_starmap(self, a, kw, fr, st):
        return tuple(self.call(a[0], self.iterate(x, fr, st), {}, fr, st) for x in self.iterate(a[1], fr, st))

    def b_dataclasses_dataclass(self, a, kw, fr, st):
        if a and isinstance(a[0], ClassVal):
            a[0].dataclass = a[0].dataclass or {}
            return a[0]
        def deco(it, aa, k, f, s):
            aa[0].dataclass = {**(aa[0].dataclass or {}), "frozen": kw.get("frozen") is True, "eq": kw.get("eq") is not False}
            if kw.get("order") is True:
                raise Unsupported("ordered dataclass")
            return aa[0]
        return Builtin("dataclass", deco)

    def b_dataclasses_astuple(self, a, kw, fr, st):
        return tuple(st.get(a[0].id).f[x] for x in self.fields(st.get(a[0].id).cls))

    def b_dataclasses_asdict(self, a, kw, fr, st):
        return self.new_dict(st, {x: st.get(a[0].id).f[x] for x in self.fields(st.get(a[0].id).cls)})

    def b_dataclasses_fields(self, a, kw, fr, st):
        k = a[0] if isinstance(a[0], ClassVal) else st.get(a[0].id).cls
        m = self.load("osa_shims", st, SHIMS)
        return tuple(self.call(self.getattr(m, "SimpleNamespace", fr, st), [], {"name": x}, fr, st) for x in self.fields(k))

    def b_functools_total_ordering(self, a, kw, fr, st):
        a[0].total = True
        return a[0]

    def b_dataclasses_field(self, a, kw, fr, st):
        return ExcVal("field", (kw,))

    def b_dataclasses_replace(self, a, kw, fr, st):
        o = st.get(a[0].id)
        n = Obj("inst", o.cls, dict(o.f))
        n.f.update(kw)
        return self.alloc(st, n)

    def b_collections_namedtuple(self, a, kw, fr, st):
        fields = a[1].replace(",", " ").split() if isinstance(a[1], str) else self.iterate(a[1], fr, st)
        ref = self.alloc(st, Obj("class", f={}, origin="global:" + a[0]))
        cls = ClassVal(a[0], self.qual(fr, a[0]), [], ref.id, fr.module)
        for k, v in zip(reversed(fields), reversed(self.iterate(kw["defaults"], fr, st) if "defaults" in kw else [])):
            st.w(ref.id).f[k] = v
        cls.dataclass = {"fields": list(fields), "frozen": True}
        cls.named = True
        return cls

    def b_delattr(self, a, kw, fr, st):
        st.w(a[0].id).f.pop(a[1], None)

    # methods of builtin values
    def method(self, name, v, a, kw, fr, st):
        if isinstance(v, Phi):
            return self.split(st, v.c, lambda s: self.method(name, v.a, a, kw, fr, s), lambda s: self.method(name, v.b, a, kw, fr, s))
        kind, m = name.split(".", 1)
        if kind == "object" and m == "__setattr__":
            st.w(v.id).f[a[0]] = a[1]
            return None
        if kind == "attrs":
            o = st.get(v.ref.id)
            if m == "update":
                new = dict(kw)
                for x in a:
                    if isinstance(x, AttrDict):
                        new = {**st.get(x.ref.id).f, **new}
                    elif isinstance(x, Ref) and st.get(x.id).kind == "dict":
                        new = {**st.get(x.id).f, **new}
                    else:
                        new = {**dict(self.iterate(y, fr, st) for y in self.iterate(x, fr, st)), **new}
                st.w(v.ref.id).f.update(new)
                return None
            if m == "pop":
                if a[0] in o.f:
                    return st.w(v.ref.id).f.pop(a[0])
                if len(a) > 1:
                    return a[1]
                raise Raised("KeyError", st)
            if m == "setdefault":
                if a[0] not in o.f:
                    st.w(v.ref.id).f[a[0]] = a[1] if len(a) > 1 else None
                return self.getattr(v.ref, a[0], fr, st)
            if m in ("get", "items", "keys", "values", "copy", "__getitem__"):
                return self.method("dict." + m, self.new_dict(st, o.f), a, kw, fr, st)
        if kind == "list":
            o = st.get(v.id)
            if m == "append":
                st.w(v.id).items.append(a[0])
                return None
            if m == "extend":
                st.w(v.id).items.extend(self.iterate(a[0], fr, st))
                return None
            if m == "insert":
                st.w(v.id).items.insert(self.const_int(a[0]), a[1])
                return None
            if m == "pop":
                w = st.w(v.id)
                i = self.const_int(a[0]) if a else -1
                if not w.items:
                    raise Raised("IndexError", st)
                return w.items.pop(i)
            if m == "copy":
                return self.new_list(st, o.items)
            if m == "clear":
                st.w(v.id).items.clear()
                return None
            if m == "reverse":
                st.w(v.id).items.reverse()
                return None
            if m == "sort":
                r = self.b_sorted([v], kw, fr, st)
                st.w(v.id).items = list(st.get(r.id).items)
                return None
            if m == "send":
                raise Unsupported("send to a generator at " + self.loc(fr))
            if m == "__next__":
                return self.b_next([v], {}, fr, st)
            if m == "__iter__":
                return v
            if m == "index":
                for i, x in enumerate(o.items):
                    c = self.rel("==", x, a[0], fr, st)
                    if c is True:
                        return D.const(i)
                    if c is not False:
                        raise Unsupported("symbolic index()")
                raise Raised("ValueError", st)
            if m == "__getitem__":
                return self.getitem(v, a[0], fr, st)
            if m == "__len__":
                return D.const(len(o.items))
            if m == "count":
                r = D.const(0)
                for x in o.items:
                    r = D.add(r, self.num(self.rel("==", x, a[0], fr, st)))
                return r
        if kind == "dict":
            o = st.get(v.id)
            if m == "get":
                if isinstance(a[0], SymStr):
                    d = a[1] if len(a) > 1 else None
                    for k in reversed(list(o.f)):
                        d = self.phi(self.rel("==", a[0], k, fr, st), o.f[k], d)
                    return d
                return self.select(self.entries(o, a[0], fr, st), lambda s: a[1] if len(a) > 1 else None, st)
            if m == "items":
                return tuple((self.unkey(k), x) for k, x in o.f.items())
            if m == "keys":
                return tuple(self.unkey(k) for k in o.f)
            if m == "values":
                return tuple(o.f.values())
            if m == "copy":
                return self.new_dict(st, o.f)
            if m == "update":
                w = st.w(v.id)
                if a:
                    w.f.update(st.get(a[0].id).f)
                w.f.update(kw)
                return None
            if m == "setdefault":
                d = a[1] if len(a) > 1 else None
                r = self.select(self.entries(o, a[0], fr, st), lambda s: d, st)
                self.put(st.w(v.id), self.key(a[0], st, fr), r)
                return r
            if m == "pop":
                k = self.key(a[0], st, fr)
                if k in o.f:
                    return st.w(v.id).f.pop(k)
                if len(a) > 1:
                    return a[1]
                raise Raised("KeyError", st)
            if m == "clear":
                st.w(v.id).f.clear()
                return None
            if m == "__getitem__":
                return self.getitem(v, a[0], fr, st)
        if kind == "set":
            o = st.get(v.id)
            if m == "add":
                if self.known(st, D.c_or(*[self.rel("==", a[0], y, fr, st) for y in o.items])) is not True:
                    st.w(v.id).items.append(a[0])
                return None
            if m in ("union", "intersection", "difference", "symmetric_difference"):
                return self.setop({"union": "bor", "intersection": "band", "difference": "sub", "symmetric_difference": "bxor"}[m], o.items, self.iterate(a[0], fr, st), fr, st)
            if m in ("discard", "remove"):
                keep = [x for x in o.items if not self.member(x, [a[0]], fr, st)]
                st.w(v.id).items = keep
                return None
            if m == "issubset":
                ys = self.iterate(a[0], fr, st)
                return all(self.member(x, ys, fr, st) for x in o.items)
            if m == "copy":
                return self.alloc(st, Obj("set", items=list(o.items)))
            if m == "clear":
                st.w(v.id).items = []
                return None
        if kind == "str":
            if isinstance(v, str) and all(isinstance(x, str) for x in a) and m in ("lower", "upper", "strip", "startswith", "endswith", "replace", "split", "title", "capitalize"):
                r = getattr(v, m)(*a)
                return self.new_list(st, r) if isinstance(r, list) else r
            if m == "format" and isinstance(v, str):
                ys = [x if isinstance(x, str) else self.const_int(x) if isinstance(x, N) else None for x in a]
                ks = {k: x if isinstance(x, str) else self.const_int(x) if isinstance(x, N) else None for k, x in kw.items()}
                if all(y is not None for y in ys) and all(y is not None for y in ks.values()):
                    return v.format(*ys, **ks)
            if m == "join" and isinstance(v, str):
                xs = self.iterate(a[0], fr, st)
                if all(isinstance(x, str) for x in xs):
                    return v.join(xs)
            if isinstance(v, str) and m in ("isdigit", "isalpha", "islower", "isupper") and not a:
                return getattr(v, m)()
            if isinstance(v, str) and m in ("find", "index", "count") and isinstance(a[0], str):
                return D.const(getattr(v, m)(a[0]))
            if isinstance(v, SymStr) and m in ("lower", "strip"):
                return v
            return Opaque("str")
        if kind == "num":
            if m == "is_integer":
                return D.cmp_("==", D.floor(v), v)
            if m == "conjugate":
                return v
        if kind == "tuple":
            if m == "index":
                for i, x in enumerate(v):
                    if self.rel("==", x, a[0], fr, st) is True:
                        return D.const(i)
            if m == "__getitem__":
                return self.getitem(v, a[0], fr, st)
            if m == "count":
                r = D.const(0)
                for x in v:
                    r = D.add(r, self.num(self.rel("==", x, a[0], fr, st)))
                return r
        raise Unsupported("method %s at %s" % (name, self.loc(fr)))

    # -------------------------------------------------------- statements
    def block(self, stmts, fr, st):
        out = Out()
        cur, g = st, True
        for s in stmts:
            o = self.stmt(s, fr, cur)
            self.absorb(out, o, g)
            if o.next is None:
                return out
            ng, cur = o.next
            g = D.c_and(g, ng)
            if g is False:
                return out
        out.next = (g, cur)
        return out

    def stmt(self, n, fr, st):
        fr.line = getattr(n, "lineno", fr.line)
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("statement %s at %s" % (type(n).__name__, self.loc(fr)))
        pc = st.pc
        try:
            r = m(n, fr, st)
        except Raised as e:
            out = Out()
            out.exc = (True, e.exc, e.st if e.st is not None else st)
            self.last_raise = e
            return out
        if r is None:
            out = Out()
            out.next = (True, st)
            return out
        return r

    def s_Pass(self, n, fr, st):
        return None

    def s_Expr(self, n, fr, st):
        if isinstance(n.value, ast.Constant):
            return None
        if isinstance(n.value, ast.YieldFrom):
            fr.yields.extend(self.iterate(self.ev(n.value.value, fr, st), fr, st))
            return None
        self.ev(n.value, fr, st)

    def s_Return(self, n, fr, st):
        v = self.ev(n.value, fr, st) if n.value is not None else None
        out = Out()
        out.ret = (True, v, st)
        return out

    def s_Break(self, n, fr, st):
        out = Out()
        out.brk = (True, None, st)
        return out

    def s_Continue(self, n, fr, st):
        out = Out()
        out.cont = (True, None, st)
        return out

    def s_Raise(self, n, fr, st):
        v = self.ev(n.exc, fr, st) if n.exc is not None else ExcVal("Exception")
        out = Out()
        name = v.name if isinstance(v, ExcVal) else v.name[4:] if isinstance(v, Builtin) else v.name if isinstance(v, ClassVal) else "Exception"
        out.exc = (True, name, st)
        return out

    def s_Assert(self, n, fr, st):
        c = self.truth(self.ev(n.test, fr, st), fr, st)
        k = self.known(st, c)
        if k is True:
            return None
        out = Out()
        if k is False:
            out.exc = (True, "AssertionError", st)
            return out
        out.exc = (D.c_not(c), "AssertionError", st.fork())
        s = st.fork(c)
        out.next = (c, s)
        return out

    def s_Assign(self, n, fr, st):
        if isinstance(n.value, ast.Yield):
            raise Unsupported("value sent to a generator")
        v = self.ev(n.value, fr, st)
        for t in n.targets:
            self.assign(t, v, fr, st)

    def s_AnnAssign(self, n, fr, st):
        if getattr(fr, "classbody", False) and isinstance(n.target, ast.Name):
            fr.ann.append(n.target.id)
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, fr, st), fr, st)

    def s_AugAssign(self, n, fr, st):
        t = n.target
        if isinstance(t, ast.Name):
            old = self.load_name(t.id, fr, st)
            v = self.aug(n.op, old, self.ev(n.value, fr, st), fr, st)
            self.store_name(t.id, v, fr, st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr, st)
            old = self.getattr(o, t.attr, fr, st)
            v = self.aug(n.op, old, self.ev(n.value, fr, st), fr, st)
            self.setattr(o, t.attr, v, fr, st)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr, st)
            i = self.ev(t.slice, fr, st)
            old = self.getitem(o, i, fr, st)
            v = self.aug(n.op, old, self.ev(n.value, fr, st), fr, st)
            self.setitem(o, i, v, fr, st)
        else:
            raise Unsupported("augmented assignment")

    def aug(self, op, a, b, fr, st):
        if isinstance(a, Ref) and st.get(a.id).kind == "list" and isinstance(op, ast.Add):
            st.w(a.id).items.extend(self.iterate(b, fr, st))
            return a
        if isinstance(a, Ref) and st.get(a.id).kind == "inst":
            m = self.find(st.get(a.id).cls, "__i" + BIN[type(op)][1][2:], st)
            if m is not None:
                return self.call(Bound(m, a), [b], {}, fr, st)
        return self.binop(type(op), a, b, fr, st)

    def assign(self, t, v, fr, st):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, fr, st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr, st)
            self.setattr(o, t.attr, v, fr, st)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr, st)
            if isinstance(t.slice, ast.Slice):
                ix = [None if x is None else self.const_int(self.ev(x, fr, st)) for x in (t.slice.lower, t.slice.upper, t.slice.step)]
                if not (isinstance(o, Ref) and st.get(o.id).kind == "list") or any(x is not None and y is None for x, y in zip((t.slice.lower, t.slice.upper, t.slice.step), ix)):
                    raise Unsupported("slice store")
                st.w(o.id).items[slice(*ix)] = self.iterate(v, fr, st)
                return
            i = self.ev(t.slice, fr, st)
            self.setitem(o, i, v, fr, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Phi):
                xs = None
                def f(x):
                    return lambda s: tuple(self.iterate(x, fr, s))
                v = self.split(st, v.c, f(v.a), f(v.b))
            xs = self.iterate(v, fr, st)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                k = len(t.elts) - i - 1
                mid = xs[i : len(xs) - k]
                for e, x in zip(t.elts[:i], xs[:i]):
                    self.assign(e, x, fr, st)
                self.assign(t.elts[i].value, self.new_list(st, mid), fr, st)
                for e, x in zip(t.elts[i + 1 :], xs[len(xs) - k :]):
                    self.assign(e, x, fr, st)
                return
            if len(xs) != len(t.elts):
                raise Raised("ValueError", st, "unpack")
            for e, x in zip(t.elts, xs):
                self.assign(e, x, fr, st)
        else:
            raise Unsupported("assignment target")

    def s_Delete(self, n, fr, st):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.w(fr.scope).f.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr, st)
                st.w(o.id).f.pop(t.attr, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr, st)
                i = self.ev(t.slice, fr, st)
                w = st.w(o.id)
                if w.kind == "dict":
                    w.f.pop(self.key(i, st, fr), None)
                else:
                    del w.items[self.const_int(i)]
            else:
                raise Unsupported("del")

    def s_Global(self, n, fr, st):
        fr.globals_decl = set(fr.globals_decl) | set(n.names)

    def s_Nonlocal(self, n, fr, st):
        fr.nonlocals |= set(n.names)

    def s_If(self, n, fr, st):
        c = self.truth(self.ev(n.test, fr, st), fr, st)
        return self.branch(c, fr, st, lambda s: self.block(n.body, fr, s), lambda s: self.block(n.orelse, fr, s))

    def branch(self, c, fr, st, ft, ff):
        k = self.known(st, c)
        if k is True:
            return ft(st)
        if k is False:
            return ff(st)
        s1, s2 = st.fork(c), st.fork(D.c_not(c))
        o1, o2 = ft(s1), ff(s2)
        out = Out()
        nc = D.c_not(c)
        self.absorb(out, o1, c)
        self.absorb(out, o2, nc)
        if o1.next is None and o2.next is None:
            return out
        if o1.next is None:
            out.next = (D.c_and(nc, o2.next[0]), o2.next[1])
        elif o2.next is None:
            out.next = (D.c_and(c, o1.next[0]), o1.next[1])
        else:
            g = D.c_or(D.c_and(c, o1.next[0]), D.c_and(nc, o2.next[0]))
            out.next = (g, self.merge(c, o1.next[1], o2.next[1]))
        return out

    def s_Match(self, n, fr, st):
        v = self.ev(n.subject, fr, st)

        def pat(p, s, v):
            if isinstance(p, ast.MatchValue):
                return self.rel("==", v, self.ev(p.value, fr, s), fr, s)
            if isinstance(p, ast.MatchSingleton):
                return self.identical(v, p.value, fr, s)
            if isinstance(p, ast.MatchOr):
                return D.c_or(*[pat(q, s, v) for q in p.patterns])
            if isinstance(p, ast.MatchAs):
                c = True if p.pattern is None else pat(p.pattern, s, v)
                if p.name and c is not False:
                    self.store_name(p.name, v, fr, s)
                return c
            if isinstance(v, Phi):
                raise Unsupported("match pattern")
            if isinstance(p, ast.MatchSequence):
                if not (isinstance(v, tuple) or isinstance(v, Ref) and (s.get(v.id).kind == "list" or getattr(s.get(v.id).cls, "named", False))):
                    return False
                xs = self.iterate(v, fr, s)
                star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
                if not star and len(xs) != len(p.patterns) or len(xs) < len(p.patterns) - len(star):
                    return False
                if star:
                    i, k = star[0], len(p.patterns) - star[0] - 1
                    if p.patterns[i].name:
                        self.store_name(p.patterns[i].name, self.new_list(s, xs[i : len(xs) - k]), fr, s)
                    pairs = list(zip(p.patterns[:i], xs[:i])) + list(zip(p.patterns[i + 1 :], xs[len(xs) - k :]))
                else:
                    pairs = list(zip(p.patterns, xs))
                return D.c_and(*[pat(q, s, x) for q, x in pairs])
            if isinstance(p, ast.MatchClass):
                t = self.ev(p.cls, fr, s)
                c = self.b_isinstance([v, t], {}, fr, s)
                if c is not True:
                    return c
                if isinstance(t, Builtin):
                    return D.c_and(*[pat(q, s, v) for q in p.patterns])
                names = list(p.kwd_attrs)
                qs = list(p.kwd_patterns)
                if p.patterns:
                    ma = self.find(t, "__match_args__", s)
                    names = list(ma if isinstance(ma, tuple) else self.fields(t))[: len(p.patterns)] + names
                    qs = list(p.patterns) + qs
                return D.c_and(*[pat(q, s, self.getattr(v, x, fr, s)) for q, x in zip(qs, names)])
            if isinstance(p, ast.MatchMapping):
                if not (isinstance(v, Ref) and s.get(v.id).kind == "dict"):
                    return False
                if p.rest:
                    raise Unsupported("match pattern")
                cs = []
                for k, q in zip(p.keys, p.patterns):
                    kv = self.ev(k, fr, s)
                    c = self.contains(v, kv, fr, s)
                    if c is False:
                        return False
                    if c is not True:
                        raise Unsupported("match pattern")
                    cs.append(pat(q, s, self.getitem(v, kv, fr, s)))
                return D.c_and(*cs)
            raise Unsupported("match pattern")

        def go(i, s):
            if i == len(n.cases):
                out = Out()
                out.next = (True, s)
                return out
            cs = n.cases[i]
            c = pat(cs.pattern, s, v)
            if cs.guard is not None and c is not False:
                c = D.c_and(c, self.truth(self.ev(cs.guard, fr, s), fr, s))
            return self.branch(c, fr, s, lambda t: self.block(cs.body, fr, t), lambda t: go(i + 1, t))

        return go(0, st)

    def s_With(self, n, fr, st):
        if len(n.items) > 1:
            inner = ast.copy_location(ast.With(n.items[1:], n.body), n)
            return self.s_With(ast.copy_location(ast.With(n.items[:1], [inner]), n), fr, st)
        it = n.items[0]
        if isinstance(it.context_expr, ast.Call) and it.optional_vars is None:
            fv = self.ev(it.context_expr.func, fr, st)
            if isinstance(fv, Builtin) and fv.name == "contextlib.suppress":
                t = ast.Tuple(it.context_expr.args, ast.Load())
                h = ast.ExceptHandler(t, None, [ast.copy_location(ast.Pass(), n)])
                for x in (t, h):
                    ast.copy_location(x, n)
                return self.s_Try(ast.copy_location(ast.Try(list(n.body), [h], [], []), n), fr, st)
        m = self.ev(it.context_expr, fr, st)
        leave = ast.copy_location(Leave(), n)
        handlers = []
        if isinstance(m, Managed):
            f, args, kw = m.f, m.args, m.kw
            body = list(f.node.body)
            k = next((i for i, x in enumerate(body) if yields(x)), None)
            if k is None or sum(yields(x) for x in body) != 1:
                raise Unsupported("context manager at " + self.loc(fr))
            scope = self.alloc(st, Obj("scope", f={}))
            f2 = Frame(scope.id, f.closure, f.module, f, f.cls, self.locals_of(f.node), args[0] if args else None)
            f2.line = f.node.lineno
            f2.entry_pc = st.pc
            f2.captured = True
            self.visited.add(f.qual)
            self.bind_args(f, args, kw, f2, st)
            o = self.block(body[:k], f2, st)
            always, after = [], body[k + 1 :]
            y = body[k]
            val = None
            while True:
                if o.next is None or o.ret is not None or o.exc is not None:
                    raise Unsupported("context manager entry at " + self.loc(fr))
                st.adopt(o.next[1])
                if isinstance(y, ast.Try) and not y.handlers and not y.orelse and y.body and isinstance(y.body[-1], ast.Expr) and yields(y.body[-1]) and not any(yields(x) for x in y.body[:-1] + y.finalbody):
                    always = y.finalbody + always
                    o = self.block(y.body[:-1], f2, st)
                    y = y.body[-1]
                    continue
                if isinstance(y, ast.Expr) and isinstance(y.value, ast.Yield):
                    val = self.ev(y.value.value, f2, st) if y.value.value is not None else None
                    break
                raise Unsupported("context manager at " + self.loc(fr))
            leave.run = lambda s: self.block(always, f2, s)
            rest = ast.copy_location(Leave(), n)
            rest.run = lambda s: self.block(after, f2, s)
            body = list(n.body) + ([rest] if after else [])
            if after and not always:
                # code after a bare yield does not run when the block raises
                body, leave.run = list(n.body), None
        else:
            if isinstance(m, Builtin) or not isinstance(m, Ref):
                raise Unsupported("with statement at " + self.loc(fr))
            val = self.call(self.getattr(m, "__enter__", fr, st), [], {}, fr, st)

            def bye(s):
                self.call(self.getattr(m, "__exit__", fr, s), [None, None, None], {}, fr, s)
                out = Out()
                out.next = (True, s)
                return out
            leave.run = bye
            body = list(n.body)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, val, fr, st)
        if leave.run is None:
            o = self.block(body, fr, st)
            out = Out()
            for k in ("next", "ret", "brk", "cont", "exc"):
                x = getattr(o, k)
                if x is None:
                    continue
                if k == "exc":
                    out.exc = self.join(out.exc, x)
                    continue
                g, v, s = (x[0], None, x[1]) if k == "next" else x
                fo = self.block(after, f2, s)
                if fo.ret is not None or fo.next is None:
                    raise Unsupported("context manager exit at " + self.loc(fr))
                self.absorb(out, fo, g, kinds=("exc",))
                y = (D.c_and(g, fo.next[0]), v, fo.next[1])
                if k == "next":
                    out.next = (y[0], y[2])
                else:
                    setattr(out, k, self.join(getattr(out, k), y))
            return out
        t = ast.copy_location(ast.Try(body, handlers, [], [leave]), n)
        return self.s_Try(t, fr, st)

    def s_Leave(self, n, fr, st):
        return n.run(st)

    def exc_matches(self, name, types):
        if types is None:
            return True
        while name:
            if name in types:
                return True
            name = EXC_PARENT.get(name, "Exception" if name not in ("Exception", "BaseException") else None)
        return False

    def s_Try(self, n, fr, st):
        entry_pc = st.pc
        self.try_frames.append([])
        s0 = st.fork()
        o = self.block(n.body, fr, s0)
        events = self.try_frames.pop()
        out = Out()
        excs = []
        if o.exc is not None:
            excs.append(o.exc)
        for g, e, s in events:
            excs.append((D.restrict(g, entry_pc) if isinstance(g, C) and entry_pc else g, e, s))
        self.absorb(out, o, True, kinds=("ret", "brk", "cont"))
        nxt = (o.next[0], None, o.next[1]) if o.next is not None else None
        if nxt is not None and n.orelse:
            oo = self.block(n.orelse, fr, o.next[1])
            self.absorb(out, oo, o.next[0])
            nxt = (D.c_and(o.next[0], oo.next[0]), None, oo.next[1]) if oo.next is not None else None
        # a guarded exception excludes the other outcomes
        for g, e, s in excs:
            handled = False
            for h in n.handlers:
                types = None
                if h.type is not None:
                    t = self.ev(h.type, fr, s)
                    ts = t if isinstance(t, tuple) else (t,)
                    types = {x.name[4:] if isinstance(x, Builtin) else getattr(x, "name", "?") for x in ts}
                if self.exc_matches(e, types):
                    if h.name:
                        self.store_name(h.name, ExcVal(e), fr, s)
                    ho = self.block(h.body, fr, s)
                    oth = Out()
                    self.absorb(oth, ho, g)
                    for k in ("ret", "brk", "cont", "exc"):
                        x = getattr(oth, k)
                        if x is not None:
                            setattr(out, k, self.join(x, getattr(out, k)))
                    if ho.next is not None:
                        nxt = self.join((D.c_and(g, ho.next[0]), None, ho.next[1]), nxt)
                    handled = True
                    break
            if not handled:
                out.exc = self.join(out.exc, (g, e, s))
        if nxt is not None:
            out.next = (nxt[0], nxt[2])
        if n.finalbody:
            fin = Out()
            for k in ("next", "ret", "brk", "cont", "exc"):
                x = getattr(out, k)
                if x is None:
                    continue
                g, v, s = (x[0], None, x[1]) if k == "next" else x
                fo = self.block(n.finalbody, fr, s)
                self.absorb(fin, fo, g)
                if fo.next is not None:
                    y = (D.c_and(g, fo.next[0]), v, fo.next[1])
                    if k == "next":
                        fin.next = (y[0], y[2])
                    else:
                        setattr(fin, k, self.join(getattr(fin, k), y))
            return fin
        return out

    # -------------------------------------------------------- imports and definitions
    def s_Import(self, n, fr, st):
        for a in n.names:
            m = self.load(a.name, st) if a.name.split(".")[0] == self.package else None
            if a.asname:
                self.store_name(a.asname, m or Builtin(a.name), fr, st)
            else:
                top = a.name.split(".")[0]
                self.store_name(top, self.modules.get(top) or Builtin(top), fr, st)

    def s_ImportFrom(self, n, fr, st):
        mod = n.module or ""
        if n.level:
            base = fr.module.name.split(".")
            if not fr.module.file.endswith("__init__.py"):
                base = base[:-1]
            base = base[: len(base) - (n.level - 1)]
            mod = ".".join(base + ([mod] if mod else []))
        if mod.split(".")[0] == self.package:
            m = self.load(mod, st)
            if m is None:
                raise Raised("ImportError", st, mod)
            for a in n.names:
                if a.name == "*":
                    for k, v in st.get(m.objid).f.items():
                        if not k.startswith("_"):
                            self.store_name(k, v, fr, st)
                    continue
                f = st.get(m.objid).f
                if a.name in f:
                    v = f[a.name]
                else:
                    v = self.load(mod + "." + a.name, st)
                    if v is None:
                        raise Raised("ImportError", st, mod + "." + a.name)
                self.store_name(a.asname or a.name, v, fr, st)
            return
        for a in n.names:
            if a.name == "*":
                if mod != "math":
                    raise Unsupported("from %s import *" % mod)
                for k in sorted(MATH_FN) + list(MATH_CONST) + ["inf", "nan"]:
                    self.store_name(k, self.builtin_attr(mod, k), fr, st)
                continue
            self.store_name(a.asname or a.name, self.builtin_attr(mod, a.name), fr, st)

    def deco(self, name, f):
        kind = {"staticmethod": "static", "classmethod": "class"}[name]
        g = FuncVal(f.node, f.qual, f.module, f.closure, f.defaults, f.kwdefaults, kind, f.cls)
        g.managed = getattr(f, "managed", False)
        return g

    def s_FunctionDef(self, n, fr, st):
        a = n.args
        if fr.func is not None:
            fr.captured = True
        defaults = [self.ev(d, fr, st) for d in a.defaults]
        kwd = {k.arg: self.ev(d, fr, st) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        v = FuncVal(n, self.qual(fr, n.name), fr.module, self.closure_of(fr), defaults, kwd, "plain", fr.cls)
        if n.name == "__init_subclass__" or n.name == "__class_getitem__":
            v.kind = "class"
        for d in reversed(n.decorator_list):
            dv = self.ev(d, fr, st)
            if isinstance(dv, Builtin) and dv.name == "staticmethod":
                v = self.deco("staticmethod", v)
            elif isinstance(dv, Builtin) and dv.name == "classmethod":
                v = self.deco("classmethod", v)
            elif isinstance(dv, Builtin) and dv.name == "property":
                v = self.b_property([v], {}, fr, st)
            else:
                v = self.call(dv, [v], {}, fr, st)
        self.store_name(n.name, v, fr, st)

    def s_ClassDef(self, n, fr, st):
        bases = [self.ev(b, fr, st) for b in n.bases]
        ref = self.alloc(st, Obj("class", f={}, origin="global:" + n.name))
        cls = ClassVal(n.name, self.qual(fr, n.name), [b for b in bases], ref.id, fr.module)
        cls.node = n
        f2 = Frame(ref.id, fr.closure if fr.func is None else fr.closure + (fr.scope,), fr.module, None, cls)
        f2.classbody = True
        f2.ann = []
        o = self.block(n.body, f2, st)
        if o.next is None:
            raise Unsupported("class body raises: " + n.name)
        if o.next[1] is not st:
            st.adopt(o.next[1])
        v = cls
        for k in n.keywords:
            if k.arg == "metaclass":
                mv = self.ev(k.value, fr, st)
                if not (isinstance(mv, Builtin) and mv.name == "abc.ABCMeta"):
                    raise Unsupported("metaclass of " + n.name)
        for k, x in list(st.get(ref.id).f.items()):
            if isinstance(x, Ref) and st.get(x.id).kind == "inst" and self.find(st.get(x.id).cls, "__set_name__", st) is not None:
                self.call(self.getattr(x, "__set_name__", fr, st), [cls, k], {}, fr, st)
        for b in cls.mro()[1:]:
            h = st.get(b.objid).f.get("__init_subclass__")
            if h is not None:
                self.call(Bound(h, cls), [], {k.arg: self.ev(k.value, fr, st) for k in n.keywords if k.arg != "metaclass"}, fr, st)
                break
        if any(isinstance(b, Builtin) and b.name == "typing.NamedTuple" for b in bases):
            cls.dataclass = {"fields": list(f2.ann), "frozen": True}
            cls.named = True
        if any(isinstance(b, Builtin) and b.name.startswith("enum.") for b in bases):
            plain = any(isinstance(b, Builtin) and b.name in ("str", "int", "float", "enum.IntEnum", "enum.StrEnum", "enum.IntFlag") for b in bases)
            cls.members = []
            f = st.w(ref.id).f
            for k, x in list(f.items()):
                if k.startswith("_") or isinstance(x, (FuncVal, ClassVal, Bound)) or isinstance(x, Builtin) and x.name != "enum.auto()":
                    continue
                if isinstance(x, Builtin) and x.name == "enum.auto()":
                    x = D.const(len(cls.members) + 1)
                    if plain and any(isinstance(b, Builtin) and b.name in ("str", "enum.StrEnum") for b in bases):
                        x = k.lower()
                if isinstance(x, ExcVal) or isinstance(x, Opaque):
                    raise Unsupported("enum.auto")
                m = x if plain else next((y for y in cls.members if isinstance(y, EnumVal) and self.rel("==", y.value, x, fr, st) is True), None) or EnumVal(cls, k, x)
                cls.members.append(m)
                f[k] = m
        for d in reversed(n.decorator_list):
            cls.dataclass = {"fields": list(f2.ann)}
            dv = self.ev(d, fr, st)
            v = self.call(dv, [v], {}, fr, st)
        self.store_name(n.name, v, fr, st)

    # -------------------------------------------------------- loops
    def s_While(self, n, fr, st):
        n = rotated(n)
        if isinstance(n, list):
            return self.block(n, fr, st)
        entry = st.fork()
        out = Out()
        cur, g, cnt = st, True, 0
        while True:
            c = self.truth(self.ev(n.test, fr, cur), fr, cur)
            k = self.known(cur, c)
            if k is None:
                k = D.restrict(c, cur.pc)
                if not isinstance(k, bool):
                    q = chosen(k)
                    if q is not None and self.known(entry, q) is None:
                        return self.branch(q, fr, entry, lambda s: self.s_While(n, fr, s), lambda s: self.s_While(n, fr, s))
                    return self.summarise(n, fr, entry, cond=n.test)
            if not k:
                break
            o = self.block(n.body, fr, cur)
            if o.brk is not None and o.brk[0] is not True or (o.ret is not None and (o.next or o.cont)):
                return self.summarise(n, fr, entry, cond=n.test)
            self.absorb(out, o, g, kinds=("ret", "exc"))
            if o.brk is not None:
                out.next = (g, o.brk[2])
                return out
            j = self.join((o.next[0], None, o.next[1]) if o.next else None, o.cont)
            if j is None:
                return out
            cur = j[2]
            g = D.c_and(g, j[0])
            cnt += 1
            if cnt > UNROLL:
                raise Unsupported("loop does not terminate within %d iterations at %s" % (UNROLL, self.loc(fr)))
        if n.orelse:
            o = self.block(n.orelse, fr, cur)
            self.absorb(out, o, g)
            if o.next:
                out.next = (D.c_and(g, o.next[0]), o.next[1])
            return out
        out.next = (g, cur)
        return out

    def s_For(self, n, fr, st, src=None):
        if src is None:
            src = self.ev(n.iter, fr, st)
        if isinstance(src, Phi):
            return self.branch(src.c, fr, st, lambda s: self.s_For(n, fr, s, src.a), lambda s: self.s_For(n, fr, s, src.b))
        if isinstance(src, SymRange):
            b = [D.restrict(x, st.pc) for x in (src.start, src.stop, src.step)]
            if all(x.op == "const" for x in b):
                src = tuple(D.const(i) for i in range(*[int(x.val) for x in b]))
            else:
                if all(x.op == "const" or chosen(x) is not None for x in b):
                    q = next(chosen(x) for x in b if x.op != "const")
                    if self.known(st, q) is None:
                        return self.branch(q, fr, st, lambda s: self.s_For(n, fr, s), lambda s: self.s_For(n, fr, s))
                return self.summarise(n, fr, st.fork(), rng=src)
        items = [x for _, x in src.items] if isinstance(src, Some) else self.iterate(src, fr, st)
        entry = st.fork()
        out = Out()
        brk = None
        cur, g = st, True
        for idx, x in enumerate(items):
            if isinstance(src, Some):
                def run(s):
                    self.assign(n.target, x, fr, s)
                    return self.block(n.body, fr, s)
                o = self.branch(src.items[idx][0], fr, cur, run, lambda s: self.block([], fr, s))
            else:
                self.assign(n.target, x, fr, cur)
                o = self.block(n.body, fr, cur)
            if not isinstance(src, Some) and idx == 0 and len(items) > 12 and ((o.brk is not None and o.brk[0] is not True) or (o.ret is not None and o.ret[0] is not True)):
                return self.summarise(n, fr, entry, rng=SymRange(D.const(0), D.const(len(items)), D.const(1)), items=items)
            self.absorb(out, o, g, kinds=("ret", "exc"))
            if o.brk is not None:
                brk = self.join(brk, (D.c_and(g, o.brk[0]), None, o.brk[2]))
            j = self.join((o.next[0], None, o.next[1]) if o.next else None, o.cont)
            if j is None:
                cur = None
                break
            cur = j[2]
            g = D.c_and(g, j[0])
            if g is False:
                cur = None
                break
        if cur is not None and n.orelse:
            o = self.block(n.orelse, fr, cur)
            self.absorb(out, o, g)
            cur, g = (o.next[1], D.c_and(g, o.next[0])) if o.next else (None, g)
        j = self.join(brk, (g, None, cur) if cur is not None else None)
        if j is not None:
            out.next = (j[0], j[2])
        return out

    # ---- summarisation
    def leaves(self, v, st, path, out, seen):
        """numeric / boolean leaves of a value, with object structure"""
        if isinstance(v, Ref):
            if v.id in seen:
                return
            seen.add(v.id)
            o = st.get(v.id)
            if o.f is not None:
                for k, x in o.f.items():
                    self.leaves(x, st, path + (k,), out, seen)
            if o.items is not None:
                for i, x in enumerate(o.items):
                    self.leaves(x, st, path + (i,), out, seen)
        elif isinstance(v, tuple):
            for i, x in enumerate(v):
                self.leaves(x, st, path + (i,), out, seen)
        else:
            out[path] = v

    def summarise(self, n, fr, entry, cond=None, rng=None, items=None):
        """one symbolic iteration; induction variables get closed forms, other loop-carried values become unknowns"""
        self.fresh_loops += 1
        lid = "L%d" % self.fresh_loops
        info = LoopInfo(fr, n.lineno)
        K = D.var("K@" + lid, lo=0.0, integer=True)
        info.K = K
        mu = {}      # (objid,key) -> head value   (scalars)
        objs = {}    # (objid,key) -> set of mu leaf paths for replaced objects
        saved = (len(self.hazards), len(self.raises))
        induct = {}  # loc -> (init, step)
        ivn = {}

        def head():
            s = entry.fork()
            vals = {}
            for (oid, key), spec in mu.items():
                o = s.w(oid)
                cur = o.f.get(key, UNBOUND) if o.f is not None and key in o.f else (o.items[key] if o.items is not None and isinstance(key, int) else UNBOUND)
                v = spec(s, cur)
                if o.items is not None and isinstance(key, int):
                    o.items[key] = v
                else:
                    o.f[key] = v
            return s

        def scalar_mu(loc, cur, nm):
            def mk(s, _):
                if loc in induct:
                    init, d = induct[loc]
                    return D.add(init, D.mul(K, d))
                if isinstance(cur, bool) or isinstance(cur, C):
                    return D.bvar("mu:%s:%s" % (lid, nm))
                integer = isinstance(cur, N) and cur.integer and nm in ivn
                return D.var("mu:%s:%s" % (lid, nm), integer=integer)
            return mk

        def struct_mu(loc, leafset, nm, shape_ref, shape_state):
            """copy of the object graph with the changing leaves unknown"""
            def mk(s, cur):
                memo = {}

                def go(v, path):
                    if isinstance(v, Ref):
                        if v.id in memo:
                            return memo[v.id]
                        o = shape_state.get(v.id) if v.id in shape_state.heap and v.id not in s.heap else s.heap.get(v.id) or shape_state.get(v.id)
                        if o.kind not in ("inst", "list"):
                            return v
                        c = Obj(o.kind, o.cls, None, None, None)
                        r = self.alloc(s, c)
                        memo[v.id] = r
                        if o.f is not None:
                            c.f = {k: go(x, path + (k,)) for k, x in o.f.items()}
                        if o.items is not None:
                            c.items = [go(x, path + (i,)) for i, x in enumerate(o.items)]
                        return r
                    if isinstance(v, tuple):
                        return tuple(go(x, path + (i,)) for i, x in enumerate(v))
                    if path in leafset:
                        full = loc + path
                        if full in induct:
                            init, d = induct[full]
                            return D.add(init, D.mul(K, d))
                        if isbool(v):
                            return D.bvar("mu:%s:%s.%s" % (lid, nm, ".".join(map(str, path))))
                        if isinstance(v, N):
                            return D.var("mu:%s:%s.%s" % (lid, nm, ".".join(map(str, path))))
                        raise Unsupported("loop-carried %s" % type(v).__name__)
                    return v

                return go(cur, ())
            return mk

        leafsets = {}
        inits = {}

        def locname(oid, key):
            o = entry.heap.get(oid)
            if o is not None and o.kind == "scope":
                return str(key)
            return "%s.%s" % (o.origin or o.kind if o else "?", key)

        def body_once(s):
            """returns (c_head, out, back_state, back_guard)"""
            c = True
            if cond is not None:
                c = self.truth(self.ev(cond, fr, s), fr, s)
                k = self.known(s, c)
                if k is not None:
                    c = k
                if isinstance(c, C):
                    s.pc = s.pc + (c,)
                    self.refine_scope(s, c, fr)
            else:
                i = D.add(rng.start, D.mul(K, rng.step))
                if items is not None:
                    if all(isinstance(x, N) and x.op == "const" for x in items) and all(items[j].val == items[0].val + j * (items[1].val - items[0].val) for j in range(len(items))):
                        i = D.add(items[0], D.mul(K, D.sub(items[1], items[0])))
                    else:
                        raise Unsupported("loop over a sequence with a data-dependent exit")
                self.assign(n.target, i, fr, s)
            o = self.block(n.body, fr, s)
            j = self.join((o.next[0], None, o.next[1]) if o.next else None, o.cont)
            return c, o, j

        rounds = 0
        while True:
            rounds += 1
            if rounds > 25:
                raise Unsupported("loop summary does not stabilise at " + self.loc(fr))
            del self.hazards[saved[0] :]
            del self.raises[saved[1] :]
            s = head()
            hs = s.fork()
            c, o, j = body_once(s)
            changed = False
            if j is None:
                break
            back = j[2]
            # the loop starts from a joined object that it replaces: one object with gated fields
            fused = False
            for oid, ob in hs.heap.items():
                nb = back.heap.get(oid)
                if nb is None or nb is ob or ob.f is None or nb.f is None or oid not in entry.heap:
                    continue
                for k2, x in ob.f.items():
                    y = nb.f.get(k2, UNBOUND)
                    if isinstance(x, Phi) and isinstance(y, Ref) and entry.heap[oid].f.get(k2) is x:
                        entry.w(oid).f[k2] = self.fuse(x, entry, {})
                        fused = True
            if fused:
                continue
            # find locations whose value differs from the head
            for oid, ob in hs.heap.items():
                nb = back.heap.get(oid)
                if nb is None or nb is ob or ob.kind in ("module",) and False:
                    continue
                pairs = []
                if ob.f is not None and nb.f is not None:
                    for k2 in list(ob.f) + [x for x in nb.f if x not in ob.f]:
                        pairs.append((k2, ob.f.get(k2, UNBOUND), nb.f.get(k2, UNBOUND)))
                if ob.items is not None and nb.items is not None:
                    if len(ob.items) != len(nb.items):
                        raise Unsupported("list grows in a symbolic loop at " + self.loc(fr))
                    pairs += [(i2, x, y) for i2, (x, y) in enumerate(zip(ob.items, nb.items))]
                for k2, x, y in pairs:
                    if same(x, y):
                        continue
                    loc = (oid, k2)
                    if oid not in entry.heap:
                        continue  # belongs to a head copy of a replaced object: compared as part of it below
                    if x is UNBOUND:
                        continue  # first assigned inside the body: dead at the head
                    eo = entry.heap[oid]
                    init = eo.f.get(k2, UNBOUND) if eo.f is not None and k2 in eo.f else eo.items[k2]
                    if isinstance(init, (N, bool, C)) and isinstance(y, (N, bool, C)):
                        if loc not in mu:
                            mu[loc] = scalar_mu(loc, self.num(init) if isinstance(y, N) else init, locname(oid, k2))
                            inits[loc] = init
                            changed = True
                    elif isinstance(init, Ref) or isinstance(y, Ref):
                        lx, ly = {}, {}
                        if not isinstance(y, Ref) or not isinstance(x, Ref):
                            if loc in leafsets:
                                raise Unsupported("loop-carried reference")
                            if isinstance(y, Phi):
                                raise Unsupported("loop-carried joined reference at " + self.loc(fr))
                            raise Unsupported("loop-carried reference kind")
                        self.leaves(x, hs, (), lx, set())
                        self.leaves(y, back, (), ly, set())
                        if set(lx) != set(ly):
                            raise Unsupported("loop-carried object changes shape at " + self.loc(fr))
                        ls = leafsets.setdefault(loc, set())
                        if loc not in mu:
                            mu[loc] = struct_mu(loc, ls, locname(oid, k2), init, entry)
                            inits[loc] = init
                            changed = True
                        for p in lx:
                            if not same(lx[p], ly[p]) and p not in ls and loc + p not in induct:
                                if isinstance(lx[p], (N, bool, C)) and isinstance(ly[p], (N, bool, C)):
                                    ls.add(p)
                                    changed = True
                                elif isinstance(lx[p], FuncVal) or isinstance(lx[p], ClassVal):
                                    raise Unsupported("loop-carried function")
                    else:
                        raise Unsupported("loop-carried %s at %s" % (type(y).__name__, self.loc(fr)))
            # objects inside replaced structures that are mutated in place (head copies)
            if not changed:
                # induction variables
                from .equal import NF
                new = False
                cand = []
                for loc in mu:
                    if loc in leafsets:
                        hx = self.read(hs, loc)
                        by = self.read(back, loc)
                        lx, ly = {}, {}
                        self.leaves(hx, hs, (), lx, set())
                        self.leaves(by, back, (), ly, set())
                        li = {}
                        self.leaves(inits[loc], entry, (), li, set())
                        for p in leafsets[loc]:
                            cand.append((loc + p, li.get(p), lx[p], ly[p]))
                    else:
                        cand.append((loc, inits[loc], self.read(hs, loc), self.read(back, loc)))
                mus = {v.id for _, _, h, _ in cand for v in ([h] if isinstance(h, N) and h.op == "var" else [])}
                mubs = {h.id for _, _, h, _ in cand if isinstance(h, C)}
                for full, init, h, y in cand:
                    info.mu[full] = (init, h, y)
                    if full in induct or not (isinstance(h, N) and isinstance(y, N) and isinstance(init, (N, bool))):
                        continue
                    d = self.stride(h, y, mus, K)
                    if d is not None:
                        induct[full] = (self.num(init), d)
                        new = True
                if new:
                    continue
                break
        info.induct = dict(induct)
        self.loops.append(info)
        out = Out()
        # outcome of the last iteration, expressed from its head
        gb = True
        lastK = None
        T = None
        exits_inside = o.brk is not None or o.ret is not None
        if rng is not None and not exits_inside:
            T = D.ceil(D.div(D.sub(rng.stop, rng.start), rng.step))
            T = self.nonneg(T)
        elif cond is not None and isinstance(c, C) and not exits_inside:
            T = self.trip(c, K)
        info.trip = T
        info.cond = c
        self.absorb(out, o, True, kinds=("exc",))
        if out.exc is not None:
            out.exc = (D.bvar("raised:" + lid), out.exc[1], out.exc[2])
        if T is not None and j is not None:
            last = D.sub(T, D.const(1))
            fin = j[2]
            res = self.subst_state(fin, {K.id: last}, entry)
            res = res.fork()
            # closed forms hold for every trip count, including zero
            for full, (init, d) in induct.items():
                self.write_path(res, full, D.add(init, D.mul(T, d)), inits, mu)
            zero = D.cmp_("<=", T, D.const(0))
            k = self.known(entry, zero)
            zero = zero if k is None else k
            if zero is True:
                out.next = (True, entry)
            else:
                info.zero = zero
                st2 = entry.fork()
                for full, (init, d) in induct.items():
                    pass
                merged = self.merge(zero, st2, res) if zero is not False else res
                merged.pc = entry.pc
                for full, (init, d) in induct.items():
                    if len(full) == 2:
                        self.write_path(merged, full, D.add(init, D.mul(T, d)), inits, mu)
                out.next = (True, merged)
            return self.loop_else(n, fr, out)
        # data-dependent exit: last iteration's values in terms of its head
        parts = None
        if o.brk is not None:
            parts = (o.brk[0], None, o.brk[2])
        ex = None
        if j is not None:
            if cond is not None:
                c2 = self.truth(self.ev(cond, fr, j[2]), fr, j[2])
                nc = D.c_not(c2)
                if nc is not False:
                    s2 = j[2]
                    if isinstance(nc, C):
                        s2 = self.refine(s2, nc, hs)
                        s2.pc = s2.pc + (nc,)
                    ex = (D.c_and(j[0], nc), None, s2)
            else:
                lastc = D.cmp_("==", D.add(K, D.const(1)), self.nonneg(D.ceil(D.div(D.sub(rng.stop, rng.start), rng.step))))
                ex = (D.c_and(j[0], lastc), None, j[2])
        if ex is not None and parts is not None and n.orelse:
            eo = self.block(n.orelse, fr, ex[2])
            self.absorb(out, eo, ex[0])
            ex = (D.c_and(ex[0], eo.next[0]), None, eo.next[1]) if eo.next else None
        if o.ret is not None:
            rg = o.ret[0]
            out.ret = (rg if (parts or ex) else True, o.ret[1], o.ret[2])
        info.exit = D.c_or(*[x[0] for x in (parts, ex, o.ret) if x is not None]) if (parts or ex or o.ret) else False
        if parts is None and ex is None:
            if o.ret is None:
                raise Unsupported("loop without exit at " + self.loc(fr))
            return out
        fin = self.join(parts, ex)
        sfin = fin[2]
        if cond is not None and parts is None:
            sfin.pc = sfin.pc
        # zero-trip exit
        if cond is not None:
            s0 = entry.fork()
            c0 = self.truth(self.ev(cond, fr, s0), fr, s0)
            k = self.known(s0, c0)
            c0 = c0 if k is None else k
            if c0 is not True:
                if parts is not None and n.orelse:
                    raise Unsupported("loop else after no iteration")
                m = self.merge(c0, sfin, s0) if c0 is not False else s0
                sfin = m
        sfin.pc = entry.pc + tuple(x for x in ([info.exit] if isinstance(info.exit, C) else []))
        out.next = (True if o.ret is None else D.c_not(o.ret[0]), sfin)
        return self.loop_else(n, fr, out, parts is not None)

    def loop_else(self, n, fr, out, brk=False):
        """the else clause runs on the exits that are no break (those with one had it run before they joined)"""
        if not n.orelse or brk or out.next is None:
            return out
        g, s = out.next
        out.next = None
        o = self.block(n.orelse, fr, s)
        self.absorb(out, o, g)
        if o.next:
            out.next = (D.c_and(g, o.next[0]), o.next[1])
        return out

    def nonneg(self, T):
        lo, hi = D.quick_iv(T)
        if lo >= 0:
            return T
        return D.ite(D.cmp_("<", T, D.const(0)), D.const(0), T)

    def read(self, st, loc):
        o = st.get(loc[0])
        if o.items is not None and isinstance(loc[1], int):
            return o.items[loc[1]]
        return o.f.get(loc[1], UNBOUND)

    def write_path(self, st, full, v, inits, mu):
        oid, key = full[0], full[1]
        if len(full) == 2:
            w = st.w(oid)
            if w.items is not None and isinstance(key, int):
                w.items[key] = v
            else:
                w.f[key] = v
            return
        cur = self.read(st, (oid, key))
        for p in full[2:-1]:
            o = st.get(cur.id)
            cur = o.f[p] if o.f is not None else o.items[p]
        if isinstance(cur, Ref):
            w = st.w(cur.id)
            if w.f is not None:
                w.f[full[-1]] = v
            else:
                w.items[full[-1]] = v

    def stride(self, h, y, mus, K):
        """y - h when it does not depend on loop-carried unknowns"""
        from .equal import NF, Sample
        try:
            un = [v for v in D.variables([y, h]) if v.name.startswith("mu:") or v is K]
            for k in (0, 1):
                s0, s1 = Sample(k), Sample(k + 50)
                s2 = Sample(k, fixed={v.id: s1.ev(v) for v in un})
                d0, d2 = [None if s.ev(y) is None or s.ev(h) is None else s.ev(y) - s.ev(h) for s in (s0, s2)]
                if d0 is not None and d2 is not None and abs(d0 - d2) > 1e-18 * (abs(s0.ev(y)) + abs(s2.ev(y)) + abs(d0)):
                    return None
            d = self.linear_stride(h, y, K)
            if d is not None:
                return d
            nf = NF()
            import time as _t
            nf.A.deadline = _t.time() + 2
            (y, h), back = self.abstract([y, h], K)
            if any(x.op == "ite" for x in D.walk([y])[0].values()):
                d = D.sub(y, h)
            else:
                r = nf.A.sub(nf.rf(y), nf.rf(h))
                ids = {nf.A.atoms[a].name for a in r.deep_atoms()}
                if any(v.name in ids for v in D.variables([h, y]) if v.name.startswith("mu:") or v is K):
                    return None
                d = self.from_rf(r, nf, [h, y])
                if d is None:
                    return None
        except Exception:
            return None
        if d is None:
            return None
        d = D.subst(d, back)
        vs = D.variables([d])
        if any(v.name.startswith("mu:") or v is K for v in vs):
            return None
        return d

    def linear_stride(self, h, y, K):
        """y as h plus terms that do not change from one iteration to the next"""
        rest, stack, seen = [], [y], 0
        while stack:
            n = stack.pop()
            if n is h:
                seen += 1
            elif n.op == "add":
                stack.extend(n.args)
            else:
                rest.append(n)
        if seen != 1:
            return None
        vs, cs = D.walk(rest)
        if any(v.op == "var" and (v.name.startswith("mu:") or v is K) for v in vs.values()) or any(c.op == "bvar" and str(c.args[0]).startswith("mu:") for c in cs.values()):
            return None
        d = D.const(0)
        for n in rest:
            d = D.add(d, n)
        return d

    def abstract(self, roots, K):
        """replace the maximal loop-invariant subgraphs that contain a gated join by unknowns (one per value number)"""
        nodes, _ = D.walk(roots)
        memo = {}

        def inv(n):
            """(invariant, has ite)"""
            if n.id in memo:
                return memo[n.id]
            if n.op == "ite":
                vs, _c = D.walk([n])
                i = not any(v.op == "var" and (v.name.startswith("mu:") or v is K) for v in vs.values()) and not any(c.op == "bvar" and str(c.args[0]).startswith("mu:") for c in _c.values())
                r = (i, True)
            elif n.op == "var":
                r = (not (n.name.startswith("mu:") or n is K), False)
            else:
                rs = [inv(a) for a in n.args if isinstance(a, N)]
                r = (all(x[0] for x in rs), any(x[1] for x in rs))
            memo[n.id] = r
            return r

        m, back = {}, {}

        seen = set()

        def go(n):
            if n.id in seen:
                return
            seen.add(n.id)
            i, h = inv(n)
            if i and h:
                if n.op in ("add", "mul", "div"):
                    for a in n.args:
                        go(a)
                elif n.id not in m:
                    v = D.var("inv:%d" % n.id, lo=D.quick_iv(n)[0], hi=D.quick_iv(n)[1], integer=n.integer)
                    m[n.id] = v
                    back[v.id] = n
                return
            if h or not i:
                for a in n.args:
                    if isinstance(a, N):
                        go(a)

        for r in roots:
            go(r)
        return [D.subst(r, m) for r in roots], back

    def from_rf(self, r, nf, roots):
        """rational function back to a graph node (variables only)"""
        nodes, _ = D.walk(roots)
        byid = {}
        for x in nodes.values():
            rf = nf.memo.get(x.id)
            if rf is not None and not rf.den and len(rf.num) == 1:
                (m, c), = rf.num.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1:
                    byid.setdefault(m[0][0], x)

        def poly(p):
            t = D.const(0)
            for m, c in p.items():
                z = D.const(c)
                for a, e in m:
                    if a not in byid:
                        return None
                    z = D.mul(z, D.power(byid[a], D.const(e)))
                t = D.add(t, z)
            return t

        t = poly(r.num)
        if t is None:
            return None
        for f, e in r.den:
            q = poly(nf.A.factors[f])
            if q is None:
                return None
            t = D.div(t, D.power(q, D.const(e)))
        return t

    def trip(self, c, K):
        """number of iterations for which c(K) holds, when c is a comparison linear in K"""
        if c.op != "sgn":
            return None
        base, st = c.args
        (base,), back = self.abstract([base], K)
        b0 = D.subst(base, {K.id: D.const(0)})
        b1 = D.subst(base, {K.id: D.const(1)})
        b2 = D.subst(base, {K.id: D.const(2)})
        vs = D.variables([b0, b1])
        if any(v.name.startswith("mu:") for v in vs):
            return None
        from .equal import NF
        try:
            nf = NF()
            A = nf.A
            r0, r1, r2 = nf.rf(b0), nf.rf(b1), nf.rf(b2)
            d = A.sub(r1, r0)
            if not A.eq(d, A.sub(r2, r1)):
                return None
            if not d.is_const() or d.cval() == 0:
                if not d.is_const():
                    return None
                return None
            beta = d.cval()
        except Exception:
            return None
        alpha = D.subst(b0, back)
        q = D.div(D.neg(alpha), D.const(beta))  # zero crossing
        if beta > 0 and st == (-1,) or beta < 0 and st == (1,):
            return self.nonneg(D.ceil(q))
        if beta > 0 and st == (-1, 0) or beta < 0 and st == (0, 1):
            return self.nonneg(D.add(D.floor(q), D.const(1)))
        if st == (-1, 1) and q.integer:
            return self.nonneg(q)
        return None

    def refine_scope(self, s, c, fr):
        """a boolean loop flag tested by the condition is a constant inside the body"""
        o = s.get(fr.scope)
        for k, v in list(o.f.items()):
            if isinstance(v, C):
                r = D.implies(c, v)
                if r is not None:
                    s.w(fr.scope).f[k] = r

    def refine(self, s, c, hs):
        """simplify the values of a state under a condition"""
        memo = {}
        for i, o in list(s.heap.items()):
            if hs is not None and hs.heap.get(i) is o:
                continue
            if o.f is None and o.items is None or o.kind == "philist":
                continue

            def r(v):
                if isinstance(v, (N, C)):
                    return D.restrict(v, [c], memo)
                if isinstance(v, Phi):
                    k = D.implies(c, v.c)
                    if k is not None:
                        return r(v.a if k else v.b)
                    return v
                if isinstance(v, tuple):
                    return tuple(r(x) for x in v)
                return v

            w = s.w(i)
            if w.f is not None:
                w.f = {k: r(v) for k, v in w.f.items()}
            if w.items is not None:
                w.items = [r(v) for v in w.items]
        return s

    def subst_state(self, s, m, entry):
        memo = {}

        def r(v):
            if isinstance(v, (N, C)):
                return D.subst(v, m, memo)
            if isinstance(v, Phi):
                return self.phi(r(v.c), r(v.a), r(v.b))
            if isinstance(v, tuple):
                return tuple(r(x) for x in v)
            return v

        out = s.fork()
        for i, o in list(out.heap.items()):
            if entry.heap.get(i) is o or o.kind == "philist":
                continue
            w = out.w(i)
            if w.f is not None:
                w.f = {k: r(v) for k, v in w.f.items()}
            if w.items is not None:
                w.items = [r(v) for v in w.items]
        return out
