"""Vector and matrix operations equal their algebraic definitions for every operand; the inverse is a two-sided inverse."""
from .. import dag as D
from .. import ref as R
from ..world import L, XYZ, XYZ6

MIN_OBLIGATIONS = 50


def check(rep):
    w = rep.world
    V3, V6 = L + "Vector3D", L + "Vector6D"

    def case():
        return w.case()

    def v(n, names=XYZ):
        return [D.var("%s.%s" % (n, c)) for c in names]

    a, b = v("a"), v("b")
    a6, b6 = v("a", XYZ6), v("b", XYZ6)
    k, th = D.var("k"), D.var("theta")

    # --- vectors
    for meth, args, exp in (
        ("plus", "b", R.add(a, b)), ("minus", "b", R.sub(a, b)), ("cross", "b", R.cross(a, b)), ("scaled", "k", R.scale(a, k)),
        ("normalized", "", R.unit(a)), ("copy", "", a),
    ):
        e = "%s.%s" % (V3, meth)
        with rep.section("vector3/" + meth, e):
            c = case()
            r = c.m(c.vec3("a"), meth, *([c.vec3("b")] if args == "b" else [k] if args == "k" else []))
            rep.eq("vector3/" + meth, e, c.xyz(r), exp)
    for meth, args, exp in (("dot", "b", R.dot(a, b)), ("magnitude", "", R.mag(a)), ("angle", "b", R.angle(a, b))):
        e = "%s.%s" % (V3, meth)
        with rep.section("vector3/" + meth, e):
            c = case()
            r = c.m(c.vec3("a"), meth, *([c.vec3("b")] if args else []))
            rep.eq("vector3/" + meth, e, r, exp)
    e = V3 + ".angle"
    with rep.section("vector3/angle-special", e):
        c = case()
        x = c.vec3("a")
        rep.eq("vector3/angle-parallel", e, c.m(x, "angle", c.m(x, "scaled", D.var("kp", lo=0.0))), 0, boundary=False)
        rep.eq("vector3/angle-opposite", e, c.m(x, "angle", c.m(x, "scaled", -D.var("kp", lo=0.0))), R.pi, boundary=False)
    for meth, exp in (("plus", R.add(a6, b6)), ("minus", R.sub(a6, b6)), ("copy", a6)):
        e = "%s.%s" % (V6, meth)
        with rep.section("vector6/" + meth, e):
            c = case()
            r = c.m(c.vec6("a"), meth, *([c.vec6("b")] if meth != "copy" else []))
            rep.eq("vector6/" + meth, e, c.xyz6(r), exp)
    with rep.section("vector6/dot", V6 + ".dot"):
        c = case()
        rep.eq("vector6/dot", V6 + ".dot", c.m(c.vec6("a"), "dot", c.vec6("b")), R.dot(a6, b6))
    with rep.section("vector6/from_position_and_velocity", V6 + ".from_position_and_velocity"):
        c = case()
        r = c.call(V6 + ".from_position_and_velocity", c.vec3("a"), c.vec3("b"))
        rep.eq("vector6/from_position_and_velocity", V6 + ".from_position_and_velocity", c.xyz6(r), a + b)
    with rep.section("vector3/rotation_about_axis", V3 + ".rotation_about_axis"):
        c = case()
        r = c.m(c.vec3("a"), "rotation_about_axis", c.vec3("b"), th)
        rep.eq("vector3/rotation_about_axis", V3 + ".rotation_about_axis", c.xyz(r), R.mv(R.rot(b, th), a))

    # the same vector on both sides
    for meth, exp in (("plus", R.scale(a, 2)), ("minus", [D.const(0)] * 3), ("cross", [D.const(0)] * 3), ("dot", R.dot(a, a)), ("angle", 0)):
        e = "%s.%s" % (V3, meth)
        with rep.section("vector3/%s-itself" % meth, e):
            c = case()
            x = c.vec3("a")
            r = c.m(x, meth, x)
            rep.eq("vector3/%s-itself" % meth, e, r if meth in ("dot", "angle") else c.xyz(r), exp, boundary=meth != "angle")
    for meth, exp in (("plus", R.scale(a6, 2)), ("minus", [D.const(0)] * 6), ("dot", R.dot(a6, a6))):
        e = "%s.%s" % (V6, meth)
        with rep.section("vector6/%s-itself" % meth, e):
            c = case()
            x = c.vec6("a")
            r = c.m(x, meth, x)
            rep.eq("vector6/%s-itself" % meth, e, r if meth == "dot" else c.xyz6(r), exp)
    with rep.section("vector3/rotation_about_axis-itself", V3 + ".rotation_about_axis"):
        c = case()
        x = c.vec3("a")
        rep.eq("vector3/rotation_about_axis-itself", V3 + ".rotation_about_axis", c.xyz(c.m(x, "rotation_about_axis", x, th)), a)

    # --- matrices
    def m(name, nr, nc):
        return [[D.var("%s%d%d" % (name, i + 1, j + 1)) for j in range(nc)] for i in range(nr)]

    shapes = {"Matrix3D": (3, 3), "Matrix3by6": (3, 6), "Matrix6by3": (6, 3), "Matrix6D": (6, 6)}
    for kind, (nr, nc) in shapes.items():
        A, B = m("A", nr, nc), m("B", nr, nc)
        K = L + kind
        with rep.section(kind + "/rows", K):
            c = case()
            rep.eq(kind + "/rows", K, c.flat(c.mat(kind, "A")), R.flat(A))
        for j in range(nc):
            e = "%s.column_%d" % (K, j + 1)
            with rep.section("%s/column_%d" % (kind, j + 1), e):
                c = case()
                col = c.m(c.mat(kind, "A"), "column_%d" % (j + 1))
                rep.eq("%s/column_%d" % (kind, j + 1), e, c.xyz(col) if nr == 3 else c.xyz6(col), [A[i][j] for i in range(nr)])
        with rep.section(kind + "/transpose", K + ".transpose"):
            c = case()
            rep.eq(kind + "/transpose", K + ".transpose", c.flat(c.m(c.mat(kind, "A"), "transpose")), R.flat(R.T(A)))
        with rep.section(kind + "/multiply_vector", K + ".multiply_vector"):
            c = case()
            x = c.vec3("a") if nc == 3 else c.vec6("a")
            r = c.m(c.mat(kind, "A"), "multiply_vector", x)
            rep.eq(kind + "/multiply_vector", K + ".multiply_vector", c.xyz(r) if nr == 3 else c.xyz6(r), R.mv(A, a if nc == 3 else a6))
    for kind, meth, other in (
        ("Matrix3D", "multiply_matrix3by6", "Matrix3by6"), ("Matrix3by6", "multiply_matrix_6by3", "Matrix6by3"), ("Matrix6by3", "multiply", "Matrix3D"),
        ("Matrix6by3", "multiply_matrix3by6", "Matrix3by6"), ("Matrix6D", "multiply_matrix_6by3", "Matrix6by3"), ("Matrix6D", "multiply_matrix", "Matrix6D"),
    ):
        e = "%s%s.%s" % (L, kind, meth)
        with rep.section("%s/%s" % (kind, meth), e):
            c = case()
            r = c.m(c.mat(kind, "A"), meth, c.mat(other, "B"))
            rep.eq("%s/%s" % (kind, meth), e, c.flat(r), R.flat(R.mm(m("A", *shapes[kind]), m("B", *shapes[other]))))
    for kind in ("Matrix3D", "Matrix6D"):
        n = shapes[kind][0]
        A, B = m("A", n, n), m("B", n, n)
        for meth in ("plus", "minus") if kind == "Matrix6D" else ("plus",):
            e = "%s%s.%s" % (L, kind, meth)
            with rep.section("%s/%s" % (kind, meth), e):
                c = case()
                r = c.m(c.mat(kind, "A"), meth, c.mat(kind, "B"))
                rep.eq("%s/%s" % (kind, meth), e, c.flat(r), R.flat(R.madd(A, B) if meth == "plus" else R.msub(A, B)))
                x = c.mat(kind, "A")
                rep.eq("%s/%s-itself" % (kind, meth), e, c.flat(c.m(x, meth, x)), R.flat(R.madd(A, A) if meth == "plus" else R.msub(A, A)))
        if kind == "Matrix6D":
            with rep.section("Matrix6D/multiply_matrix-itself", L + "Matrix6D.multiply_matrix"):
                c = case()
                x = c.mat(kind, "A")
                rep.eq("Matrix6D/multiply_matrix-itself", L + "Matrix6D.multiply_matrix", c.flat(c.m(x, "multiply_matrix", x)), R.flat(R.mm(A, A)))
        e = "%s%s.diagonal" % (L, kind)
        with rep.section(kind + "/diagonal", e):
            c = case()
            d = c.m(c.mat(kind, "A"), "diagonal")
            rep.eq(kind + "/diagonal", e, c.xyz(d) if n == 3 else c.xyz6(d), [A[i][i] for i in range(n)])
    with rep.section("Matrix6D/identity", L + "Matrix6D.identity"):
        c = case()
        rep.eq("Matrix6D/identity", L + "Matrix6D.identity", c.flat(c.call(L + "Matrix6D.identity")), R.flat(R.eye(6)))
    A = m("A", 3, 3)
    M3 = L + "Matrix3D."
    with rep.section("Matrix3D/scaled", M3 + "scaled"):
        c = case()
        rep.eq("Matrix3D/scaled", M3 + "scaled", c.flat(c.m(c.mat("Matrix3D", "A"), "scaled", k)), [x * k for x in R.flat(A)])
    with rep.section("Matrix3D/determinant", M3 + "determinant"):
        c = case()
        rep.eq("Matrix3D/determinant", M3 + "determinant", c.m(c.mat("Matrix3D", "A"), "determinant"), R.det3(A))
    cof = [R.cross(A[1], A[2]), R.cross(A[2], A[0]), R.cross(A[0], A[1])]
    with rep.section("Matrix3D/cofactor", M3 + "cofactor"):
        c = case()
        rep.eq("Matrix3D/cofactor", M3 + "cofactor", c.flat(c.m(c.mat("Matrix3D", "A"), "cofactor")), R.flat(cof))
    with rep.section("Matrix3D/adjugate", M3 + "adjugate"):
        c = case()
        rep.eq("Matrix3D/adjugate", M3 + "adjugate", c.flat(c.m(c.mat("Matrix3D", "A"), "adjugate")), R.flat(R.T(cof)))
    with rep.section("Matrix3D/inverse", M3 + "inverse"):
        c = case()
        inv = c.rows(c.m(c.mat("Matrix3D", "A"), "inverse"))
        pre = [D.cmp_("!=", R.det3(A), D.const(0))]
        rep.eq("Matrix3D/inverse-right", M3 + "inverse", R.flat(R.mm(A, inv)), R.flat(R.eye(3)), pre)
        rep.eq("Matrix3D/inverse-left", M3 + "inverse", R.flat(R.mm(inv, A)), R.flat(R.eye(3)), pre)
        # symmetric and sparse operands take the same code path
        rep.eq("Matrix3D/inverse", M3 + "inverse", R.flat(inv), R.flat(R.inv3(A)), pre)
