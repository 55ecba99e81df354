"""Building symbolic inputs and reading results through the public API of the analysed package."""
from __future__ import annotations

from . import dag as D
from .dag import C, N
from .interp import Bound, ClassVal, Frame, FuncVal, Interp, Phi, Raised, Ref, Unsupported

PI = D.PI if hasattr(D, "PI") else None
TWO_PI = None
L = "openspace.math.linalg."
S = "openspace.coordinates.states."
POS = "openspace.coordinates.positions."
XYZ = ("x", "y", "z")
XYZ6 = ("x", "y", "z", "vx", "vy", "vz")


class Anchor(Exception):
    """a public name the rules are anchored to no longer exists"""


class World:
    def __init__(self, root):
        self.it = Interp(root)
        self.it.load_all()
        #: class -> queries that leave something behind in the object they are asked of
        self.keeps = {}
        self.used = False

    def case(self):
        return Case(self)


class Case:
    """one heap in which inputs are built and functions are interpreted"""

    def __init__(self, world):
        self.w = world
        self.it = world.it
        self.st = self.it.base.fork()
        self.fr = Frame(0, (), self.it.modules["openspace"])
        self.n_raises = len(self.it.raises)
        self.n_haz = len(self.it.hazards)
        self.n_loops = len(self.it.loops)

    def fork(self):
        c = object.__new__(Case)
        c.__dict__.update(self.__dict__)
        c.st = self.st.fork()
        self.st.owned = set()
        c.n_raises = len(self.it.raises)
        c.n_haz = len(self.it.hazards)
        c.n_loops = len(self.it.loops)
        return c

    # ---- names
    def find(self, dotted):
        try:
            v = self.it.lookup(dotted, self.st)
        except (KeyError, AttributeError, Raised) as e:
            raise Anchor(dotted) from e
        if v is None:
            raise Anchor(dotted)
        return v

    # ---- construction
    def new(self, cls, *args):
        c = self.find(cls) if isinstance(cls, str) else cls
        r = self.it.call(c, [self.val(a) for a in args], {}, self.fr, self.st)
        if self.w.used and self.w.keeps:
            from .rules import calls
            calls.rehearse(self, r)
        return r

    def val(self, a):
        if isinstance(a, (int, float)) and not isinstance(a, bool):
            return D.const(D.lit(a)) if isinstance(a, float) else D.const(a)
        if isinstance(a, D.F):
            return D.const(a)
        return a

    def call(self, f, *args, **kw):
        if isinstance(f, str):
            f = self.find(f)
        return self.it.call(f, [self.val(a) for a in args], {k: self.val(v) for k, v in kw.items()}, self.fr, self.st)

    def m(self, obj, name, *args, **kw):
        return self.call(self.get(obj, name), *args, **kw)

    def get(self, obj, path):
        for p in path.split("."):
            obj = self.it.getattr(obj, p, self.fr, self.st)
        return obj

    def set(self, obj, name, v):
        self.it.setattr(obj, name, self.val(v), self.fr, self.st)

    def item(self, obj, i):
        return self.it.getitem(obj, D.const(i), self.fr, self.st)

    # ---- symbolic values
    def vec3(self, name, scale=1.0):
        return self.new(L + "Vector3D", *[D.var("%s.%s" % (name, c), scale=scale) for c in XYZ])

    def vec6(self, name, scale=1.0):
        return self.new(L + "Vector6D", *[D.var("%s.%s" % (name, c), scale=scale) for c in XYZ6])

    def v3(self, t):
        return self.new(L + "Vector3D", *t)

    def v6(self, t):
        return self.new(L + "Vector6D", *t)

    def mat(self, kind, name, scale=1.0, sym=False):
        """kind: Matrix3D, Matrix3by6, Matrix6by3, Matrix6D"""
        nr, nc = {"Matrix3D": (3, 3), "Matrix3by6": (3, 6), "Matrix6by3": (6, 3), "Matrix6D": (6, 6)}[kind]
        rows = []
        for i in range(nr):
            e = []
            for j in range(nc):
                a, b = (min(i, j), max(i, j)) if sym else (i, j)
                e.append(D.var("%s%d%d" % (name, a + 1, b + 1), scale=scale))
            rows.append(e)
        return self.matof(kind, rows)

    def matof(self, kind, rows):
        mk = self.v3 if len(rows[0]) == 3 else self.v6
        return self.new(L + kind, *[mk(r) for r in rows])

    def epoch(self, name, scale=59000.0):
        v = D.var(name, scale=scale) if isinstance(name, str) else name
        return self.new("openspace.time.Epoch", v)

    def state(self, cls, name, epoch=None, rscale=15000.0, vscale=4.0):
        e = self.epoch(name + ".t") if epoch is None else epoch
        return self.new(S + cls, e, self.vec3(name + ".r", rscale), self.vec3(name + ".v", vscale))

    # ---- reading
    def xyz(self, v):
        return [self.num(self.get(v, c)) for c in XYZ]

    def xyz6(self, v):
        return [self.num(self.get(v, c)) for c in XYZ6]

    def num(self, v):
        return self.it.num(v)

    def rows(self, m):
        out = []
        for i in range(1, 7):
            try:
                r = self.get(m, "row%d" % i)
            except Raised:
                break
            try:
                out.append(self.xyz6(r))
            except Raised:
                out.append(self.xyz(r))
        return out

    def flat(self, m):
        return [x for r in self.rows(m) for x in r]

    def pv(self, s):
        return self.xyz(self.get(s, "position")) + self.xyz(self.get(s, "velocity"))

    def loops(self):
        return self.it.loops[self.n_loops :]

    def hazards(self):
        return self.it.hazards[self.n_haz :]

    def raises(self):
        return self.it.raises[self.n_raises :]

    def clsname(self, v):
        if isinstance(v, Phi):
            a, b = self.clsname(v.a), self.clsname(v.b)
            return a if a == b else "%s|%s" % (a, b)
        if isinstance(v, Ref):
            o = self.st.get(v.id)
            return o.cls.name if o.kind == "inst" else o.kind
        return type(v).__name__

    # ---- heap
    def reach(self, *vals, through=None):
        """ids of mutable objects reachable from the values"""
        seen = set()
        todo = list(vals)
        while todo:
            v = todo.pop()
            if isinstance(v, Phi):
                todo += [v.a, v.b]
            elif isinstance(v, tuple):
                todo += list(v)
            elif isinstance(v, Bound):
                todo.append(v.self_)
            elif isinstance(v, Ref):
                if v.id in seen:
                    continue
                o = self.st.heap.get(v.id)
                if o is None or o.kind not in ("inst", "list", "dict", "set", "philist"):
                    continue
                seen.add(v.id)
                if o.f:
                    for k, x in o.f.items():
                        if isinstance(x, list):
                            todo += x
                        else:
                            todo.append(x)
                if o.items:
                    todo += o.items
        return seen

    def paths(self, root, label, limit=60):
        """object id -> access path, for messages"""
        out = {}
        todo = [(root, label)]
        while todo:
            v, p = todo.pop(0)
            if isinstance(v, Phi):
                todo += [(v.a, p), (v.b, p)]
            elif isinstance(v, tuple):
                todo += [(x, "%s[%d]" % (p, i)) for i, x in enumerate(v)]
            elif isinstance(v, Ref) and v.id not in out:
                o = self.st.heap.get(v.id)
                if o is None or o.kind not in ("inst", "list", "dict", "set"):
                    continue
                out[v.id] = p
                for k, x in (o.f or {}).items():
                    todo.append((x, "%s.%s" % (p, k)))
                for i, x in enumerate(o.items or []):
                    todo.append((x, "%s[%d]" % (p, i)))
        return out
