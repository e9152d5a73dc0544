"""P13: no view, iterator, pointer or lazy expression is formed over the storage of a temporary owning array."""
from wit import G

D = """
template<class T> using A1 = Array1D<T>; template<class T> using A2 = Array2D<T>;
template<class T> using F1 = FixedArray1D<T, 4>; template<class T> using F2 = FixedArray2D<T, 2, 3>;
template<class T> using Z1 = Array1D<T, Aligned>; template<class T> using Z2 = Array2D<T, Aligned>;
"""
OWN1 = [("Array1D", "Array1D<%s>"), ("aligned Array1D", "Array1D<%s,Aligned>"), ("FixedArray1D", "FixedArray1D<%s,4>")]
OWN2 = [("Array2D", "Array2D<%s>"), ("aligned Array2D", "Array2D<%s,Aligned>"), ("FixedArray2D", "FixedArray2D<%s,2,3>")]


def owners(d):
    return OWN1 if d == 1 else OWN2


def temps(ty):
    """ways a temporary owner of type ty arises"""
    return [f"X_<{ty}>()", f"X_<const {ty}>()", f"std::move(L_<{ty}>())", f"std::move(C_<{ty}>())"]


# unary: (template over §, element type, dimensions)
UN = [(f"{op}§", "double", (1, 2)) for op in ("+", "-")]
UN += [("~§", "int", (1, 2)), ("!§", "bool", (1, 2)), ("abs(§)", "int", (1, 2)), ("abs(§)", "double", (1, 2))]
UN += [(f"{f}(§)", "double", (1, 2)) for f in
       ("exp", "log", "log2", "log10", "sqrt", "cbrt", "sin", "cos", "tan", "inv")]
UN += [("pow(§, 2._sd)", "double", (1, 2)), ("pow_int(§, 2)", "double", (1, 2)), ("fast_pow_int(§, 2)", "double", (1, 2)),
       ("array_cast<float>(§)", "double", (1, 2)), ("generate(§, [](auto x) { return x; })", "double", (1, 2)),
       ("exclude(§, 0)", "double", (1,)), ("exclude(§, 0, 1)", "double", (1,)), ("exclude(§, Pos{0}, Count{1})", "double", (1,)),
       ("exclude(§, last)", "double", (1,)), ("transpose(§)", "double", (2,)),
       ("row_reduce(§, [](auto const& r) { return sum(r); })", "double", (2,)),
       ("col_reduce(§, [](auto const& r) { return sum(r); })", "double", (2,)),
       ("row_broadcast(§)", "double", (1,)), ("col_broadcast(§)", "double", (1,)),
       ("merge(§, 1._sd)", "double", (1,)), ("merge(1._sd, §)", "double", (1,)), ("merge(§, 1._sd, 2._sd)", "double", (1,)),
       ("merge(1._sd, 2._sd, §)", "double", (1,)),
       ("RowIt(§)", "double", (2,)), ("ColIt(§)", "double", (2,)),
       ]
for op in "+-*/":
    UN += [(f"§ {op} 1._sd", "double", (1, 2)), (f"1._sd {op} §", "double", (1, 2))]
for op in ("%", "<<", ">>", "&", "|", "^"):
    UN += [(f"§ {op} 1_si", "int", (1, 2)), (f"1_si {op} §", "int", (1, 2))]
for op in ("&&", "||", "^"):
    UN += [(f"§ {op} true_sb", "bool", (1, 2)), (f"true_sb {op} §", "bool", (1, 2))]
MEM = ["§.begin()", "§.end()", "§.cbegin()", "§.cend()", "§.rbegin()", "§.rend()", "§.crbegin()", "§.crend()",
       "§.view1D()", "§.view2D(1, 4)", "§.data()", "§.blas_data()"]
MEM1 = ["§(place::all)", "§(place::even)", "§(place::reverse)", "§(seqN{0, 1})", "§(seq{0, 1})", "§({0, 1})",
        "§(std::vector<ImplicitInt>{0})", "§(place::firstN(1))", "§(place::lastN(1))", "§(place::skipN(2))",
        "§(place::complement({0}))"]
MEM2 = ["§.row(0)", "§.col(0)", "§.row(last)", "§.col(last)", "§.diag()", "§.diag(1)", "§(place::all, place::all)",
        "§(seqN{0, 1}, seqN{0, 1})", "§({0, 1}, {0, 1})", "§(place::all, {0})", "§({0}, place::all)",
        "§(seqN{0, 1}, {0})", "§.rows(place::all)", "§.rows({0})", "§.cols(place::all)", "§.cols({0})",
        "§.rows(seqN{0, 1})", "§.cols(seq{0, 1})", "§.block(0, 0, 1, 1)", "§.blockN(0, 0, 1, 1)",
        "§.block(0, 0, last, last)"]
# binary: (template over § and ¤, element types, dimensions)
BIN = [(f"§ {op} ¤", "double", "double", d) for op in "+-*/" for d in ((1, 1), (2, 2))]
BIN += [(f"§ {op} ¤", "int", "int", d) for op in ("%", "<<", ">>", "&", "|", "^") for d in ((1, 1), (2, 2))]
BIN += [(f"§ {op} ¤", "bool", "bool", d) for op in ("&&", "||", "^") for d in ((1, 1), (2, 2))]
BIN += [("two_prod(§, ¤)", "double", "double", (1, 1)), ("two_prod(§, ¤)", "double", "double", (2, 2)),
        ("pow_prod(§, ¤)", "double", "int", (1, 1)), ("pow_prod(§, ¤)", "double", "long", (2, 2)),
        ("matvec_prod(§, ¤)", "double", "double", (2, 1)), ("tensor_prod(§, ¤)", "double", "double", (1, 1)),
        ("generate(§, ¤, [](auto x, auto y) { return x + y; })", "double", "double", (1, 1)),
        ("generate(§, ¤, [](auto x, auto y) { return x + y; })", "double", "double", (2, 2)),
        ("merge(§, ¤)", "double", "double", (1, 1)), ("merge_horizontal(§, ¤)", "double", "double", (2, 2)),
        ("merge_vertical(§, ¤)", "double", "double", (2, 2)),
        ("merge(L_<Array1D<double>>(), §, ¤)", "double", "double", (1, 1)),
        ("merge(§, L_<Array1D<double>>(), ¤)", "double", "double", (1, 1)),
        ("merge_horizontal(L_<Array2D<double>>(), §, ¤)", "double", "double", (2, 2)),
        ("merge_horizontal(§, L_<Array2D<double>>(), ¤)", "double", "double", (2, 2)),
        ("merge_vertical(L_<Array2D<double>>(), §, ¤)", "double", "double", (2, 2)),
        ("merge_vertical(§, L_<Array2D<double>>(), ¤)", "double", "double", (2, 2)),
        ]


def expr_of(d, t):
    """lvalue, expression temporary and slice temporary of dimension d, element type t"""
    own = ("Array1D<%s>" if d == 1 else "Array2D<%s>") % t
    lv = f"L_<{own}>()"
    sl = f"{lv}(place::all)" if d == 1 else f"{lv}(place::all, place::all)"
    ex = f"array_cast<{t}>({lv})"
    return [("const lvalue", f"C_<{own}>()"), ("lvalue", lv), ("slice", sl), ("expression", ex)]


def use(code):
    return f"[[maybe_unused]] auto r_ = {code};"


def groups(quad=False, flavour=""):
    out = []
    for tmpl, t, dims in UN:
        for d in dims:
            lines = []
            lazy_it = tmpl.startswith(("RowIt", "ColIt"))
            for n, e in expr_of(d, t):
                if lazy_it and n in ("slice", "expression"):
                    continue
                lines.append(("Y", use(tmpl.replace("§", e))))
            for _, ty in owners(d):
                lines.append(("Y", use(tmpl.replace("§", f"L_<{ty % t}>()"))))
                lines += [("N", use(tmpl.replace("§", x))) for x in temps(ty % t)]
            out.append(G(f"{tmpl.replace('§', 'A')} on {d}D {t}", lines))
    for d, mems in ((1, MEM + MEM1), (2, MEM + MEM2)):
        for tmpl in mems:
            lines = []
            for _, ty in owners(d):
                T = ty % "double"
                lines += [("Y", use(tmpl.replace("§", f"L_<{T}>()"))), ("Y", use(tmpl.replace("§", f"C_<{T}>()")))]
                lines += [("N", use(tmpl.replace("§", x))) for x in temps(T)]
            out.append(G(f"{tmpl.replace('§', 'A')} on {d}D", lines))
    for tmpl, t1, t2, (d1, d2) in BIN:
        lines = []
        E1, E2 = expr_of(d1, t1), expr_of(d2, t2)
        for n1, e1 in E1:
            for n2, e2 in E2:
                lines.append(("Y", use(tmpl.replace("§", e1).replace("¤", e2))))
        o1, o2 = owners(d1), owners(d2)
        for (na, a), tk in zip(o1, (0, 1, 2)):
            for _, e2 in E2:
                lines.append(("N", use(tmpl.replace("§", temps(a % t1)[tk]).replace("¤", e2))))
        for (nb, b), tk in zip(o2, (0, 2, 1)):
            for _, e1 in E1:
                lines.append(("N", use(tmpl.replace("§", e1).replace("¤", temps(b % t2)[tk]))))
        for k in range(4):
            lines.append(("N", use(tmpl.replace("§", temps(o1[0][1] % t1)[k]).replace("¤", temps(o2[0][1] % t2)[k]))))
        out.append(G(f"{tmpl.replace('§', 'A').replace('¤', 'B')} on {d1}D {t1}, {d2}D {t2}", lines))
    # pointers: only lvalue pointers to strict-compatible builtins
    for t in ("double", "int"):
        out.append(G(f"attach {t}", [
            ("Y", f"{t} p[4]{{}}; {use('attach1D(p, 4)')}"), ("Y", f"const {t} p[4]{{}}; {use('attach1D(p, 4)')}"),
            ("Y", f"{t}* p = nullptr; {use('attach1D(p, 4)')}"),
            ("N", use(f"attach1D(X_<std::vector<{t}>>(), 4)")),
            ("N", use(f"attach1D(X_<{t}*>(), 4)"))]))
    return out
