"""P15: nothing modifiable is reachable through a const array, slice, view, expression or pointer."""
from wit import G

OWN = {1: ["Array1D<%s>", "Array1D<%s, Aligned>", "FixedArray1D<%s, 4>"],
       2: ["Array2D<%s>", "Array2D<%s, Aligned>", "FixedArray2D<%s, 2, 3>"]}
# selections: (code over §, dimension of the operand, dimension of the result)
SEL = [(f"§({s})", 1, 1) for s in ("place::all", "place::even", "place::odd", "place::reverse", "place::skipN(2)",
                                   "place::firstN(2)", "place::lastN(2)", "place::complement{1}", "seqN(0, 2)", "seq(0, 1)",
                                   "seqN(First{0}, Size{2}, Stride{1})", "std::vector<ImplicitInt>{0, 1}", "{0, 1}")]
SEL += [("§.view1D()", 1, 1), ("§.view2D(2, 2)", 1, 2)]
SEL += [("§.row(0)", 2, 1), ("§.row(last)", 2, 1), ("§.col(0)", 2, 1), ("§.col(last)", 2, 1), ("§.diag()", 2, 1), ("§.diag(1)", 2, 1),
        ("§.view1D()", 2, 1), ("§.view2D(3, 2)", 2, 2)]
SEL += [(f"§({a}, {b})", 2, 2) for a, b in (("place::all", "place::all"), ("seqN(0, 1)", "place::reverse"), ("place::even", "{0, 1}"),
                                            ("{0, 1}", "place::odd"), ("{0, 1}", "{0}"), ("std::vector<ImplicitInt>{0}", "seq(0, 1)"))]
SEL += [(f"§.{f}({a})", 2, 2) for f in ("rows", "cols") for a in ("place::all", "seqN(0, 1)", "{0, 1}", "place::even",
                                                                  "std::vector<ImplicitInt>{0}")]
SEL += [("§.block(0, 0, 1, 1)", 2, 2), ("§.block(0, 0, last, last)", 2, 2), ("§.blockN(0, 0, 1, 1)", 2, 2)]
VAL = {"double": "1._sd", "int": "1_si", "bool": "true_sb", "float": "1._sf", "long": "1_sl"}


def writes(t, d, named):
    """ways to modify through the array expression § (an lvalue named s when `named`)"""
    v = VAL[t]
    w = []
    for i in (("0", "last") if d == 1 else ("0, 0", "last, last", "0, last")):
        w += [f"§.un({i}) = {v}", f"§.at({i}) = {v}"]
        w += [f"§[{i}] = {v}"] if d == 1 else [f"§({i}) = {v}"]
    if d == 2:
        w += [f"§.un(0) = {v}"]
    w += [f"§ = {v}", f"§ = C_<Array{d}D<{t}>>()", f"§ = C_<Array{d}D<{t}>>()" + ("(place::all)" if d == 1 else ".view2D(1, 1)")]
    w += ["§ = {%s}" % v if d == 1 else "§ = {{%s}}" % v]
    if t != "bool":
        for op in ("+=", "-=", "*=", "/="):
            w += [f"§ {op} {v}", f"§ {op} C_<Array{d}D<{t}>>()"]
        w += [f"++§.un({i})" for i in (("0",) if d == 1 else ("0, 0",))]
    if t == "int":
        for op in ("%=", "<<=", ">>=", "&=", "|=", "^="):
            w += [f"§ {op} {v}", f"§ {op} C_<Array{d}D<{t}>>()"]
    if named:
        w += [f"*§.begin() = {v}", f"§.begin()[1] = {v}", f"*(§.end() - 1) = {v}", f"*§.rbegin() = {v}",
              f"for(auto& x_ : §) x_ = {v}", f"for(Strict<{t}>& x_ : §) x_ = {v}", f"std::fill(§.begin(), §.end(), {v})",
              f"for_each(§, [](auto& x_) {{ x_ = {v}; }})", f"for_each(§, [](Strict<{t}>& x_) {{ x_ = {v}; }})",
              f"[[maybe_unused]] Strict<{t}>& r_ = *§.begin()"]
        w += ["shuffle(§)"]
        if t in ("double", "float", "int", "long"):
            w += ["sort_increasing(§)", "sort_decreasing(§)", "sort(§, [](auto a_, auto b_) { return a_ < b_; })"]
        if t != "bool":
            w += ["random(§)", f"random(§, {v}, {v})", f"random(§, Low{{{v}}}, High{{{v}}})", "random_not0(§)", f"random_not0(§, {v}, {v})"]
        if d == 2:
            w += [f"for(auto r_ : RowIt(§)) r_[0] = {v}", f"for(auto r_ : ColIt(§)) r_[0] = {v}", f"(*RowIt(§).begin()) = {v}",
                  f"(*ColIt(§).rbegin()) = {v}", f"RowIt(§).begin()[0].un(0) = {v}"]
    return w


NEVER = ["*§.cbegin() = %s", "*§.crbegin() = %s", "§.cbegin()[0] = %s", "*(§.cend() - 1) = %s"]
NEVER2 = ["RowIt(§).cbegin()[0].un(0) = %s", "(*ColIt(§).cbegin()) = %s"]
OWNER = {1: ["§.data()[0] = {v}", "*§.data() = {v}", "§.blas_data()[0] = {t}{{}}", "[[maybe_unused]] Strict<{t}>* p_ = §.data()",
             "§.swap(L_<{o}>())", "L_<{o}>().swap(§)", "L_<std::istringstream>() >> §"],
         2: ["§.data()[0] = {v}", "*§.data() = {v}", "§.blas_data()[0] = {t}{{}}", "[[maybe_unused]] Strict<{t}>* p_ = §.data()",
             "§.swap(L_<{o}>())", "L_<{o}>().swap(§)", "L_<std::istringstream>() >> §"]}
DYN = {1: ["§.resize(3)", "§.resize(3, false)", "§.resize_and_assign(C_<Array1D<{t}>>())", "§.resize_and_assign(X_<{o}>())", "§.remove(0)",
           "§.remove(0, 1)", "§.remove(Pos{{0}})", "§.remove(last)", "§.remove({{0, 1}})", "§.remove_front()", "§.remove_back()",
           "§.insert(0, {v})", "§.insert(Pos{{0}}, Value{{{v}}})", "§.insert_front({v})", "§.insert_back({v})", "§.insert(0, C_<Array1D<{t}>>())",
           "§.insert_front(C_<Array1D<{t}>>())", "§.insert_back(C_<Array1D<{t}>>())", "read_from_file(\"x\", §)", "§ = X_<{o}>()"],
       2: ["§.resize(3, 2)", "§.resize(3, 2, false)", "§.resize_and_assign(C_<Array2D<{t}>>())", "§.resize_and_assign(X_<{o}>())",
           "§.remove_rows(0, 1)", "§.remove_cols(0, 1)", "§.remove_row(0)", "§.remove_col(0)", "§.remove_row(last)", "§.remove_col(last)",
           "§.insert_row(0, C_<Array1D<{t}>>())", "§.insert_col(0, C_<Array1D<{t}>>())", "§.insert_rows(0, C_<Array2D<{t}>>())",
           "§.insert_cols(0, C_<Array2D<{t}>>())", "read_from_file(\"x\", §)", "§ = X_<{o}>()"]}


def line(kind, w, e, **kw):
    for k, x in kw.items():
        w = w.replace("{" + k + "}", x)
    w = w.replace("{{", "{").replace("}}", "}") if kw else w
    return (kind, w.replace("§", e) + ";")


def groups(quad=False, flavour=""):
    gs = []
    ts = ["double", "int", "bool"] if not quad else ["float128"]
    if quad:
        VAL["float128"] = "Strict128{}"
    for d in (1, 2):
        for t in ts:
            v = VAL[t]
            ls = []
            for o in OWN[d]:
                T = o % t
                for k, e in (("Y", f"L_<{T}>()"), ("N", f"C_<{T}>()")):
                    ls += [line(k, w, e) for w in writes(t, d, True)]
                    ls += [("N", (w % v).replace("§", e) + ";") for w in NEVER + (NEVER2 if d == 2 else [])]
                    own = [w for w in OWNER[d] if not (t == "bool" and "blas" in w) and not ("swap" in w and "Fixed" in T)]
                    own = [w for w in own if not (">>" in w and "Fixed" in T)]
                    ls += [line(k, w, e, v=v, t=t, o=T) for w in own]
                    if "Fixed" not in T:
                        ls += [line(k, w, e, v=v, t=t, o=T) for w in DYN[d]]
                P = f"const Strict<{t}>*"
                ls += [("Y", f"TYPE({P}, C_<{T}>().data());"), ("Y", f"TYPE(Strict<{t}>*, L_<{T}>().data());")]
                if t != "bool":
                    ls += [("Y", f"TYPE(const {t}*, C_<{T}>().blas_data());"), ("Y", f"TYPE({t}*, L_<{T}>().blas_data());")]
                i = "0" if d == 1 else "0, 0"
                for f in [f".un({i})", f".at({i})"] + (["[0]"] if d == 1 else ["(0, 0)", ".un(0)"]):
                    ls += [("Y", f"TYPE(const Strict<{t}>&, C_<{T}>(){f});"), ("Y", f"TYPE(Strict<{t}>&, L_<{T}>(){f});")]
            gs.append(G(f"{d}D arrays of {t}", ls))
            # selections, alone and composed
            for s, ds, dr in SEL:
                if ds != d:
                    continue
                ls = []
                for o in OWN[d]:
                    T = o % t
                    srcs = [("Y", f"L_<{T}>()"), ("N", f"C_<{T}>()")]
                    for k, e in srcs:
                        p = s.replace("§", e)
                        full = o == OWN[d][0]
                        ws = writes(t, dr, False)
                        ls += [line(k, w, p) for w in (ws if full else ws[:3])]
                        if not full:
                            continue
                        ls += [(k, f"auto s_ = {p}; " + w.replace("§", "s_") + ";") for w in writes(t, dr, True)]
                        ls += [(k, p + f".lval() = {v};")]
                        ls += [("N", f"auto s_ = {p}; " + (w % v).replace("§", "s_") + ";") for w in NEVER + (NEVER2 if dr == 2 else [])]
                        # a const selection, and a selection taken from it
                        ls += [("N", f"const auto s_ = {p}; " + w.replace("§", "s_") + ";") for w in writes(t, dr, True)]
                        for q, es, er in SEL:
                            if es != dr:
                                continue
                            w0 = f".un({'0' if er == 1 else '0, 0'}) = {v};"
                            ls += [(k, q.replace("§", p) + w0), ("N", f"const auto s_ = {p}; " + q.replace("§", "s_") + w0),
                                   ("N", f"const auto s_ = {p}; " + q.replace("§", "s_") + f" = {v};"),
                                   (k, f"auto s_ = {p}; " + q.replace("§", "s_") + f" = {v};")]
                gs.append(G(f"{s.replace('§', 'A')} of {d}D {t}", ls))
            # expressions are not assignable and give no access to their operands
            if t == "double":
                ls = [("Y", f"auto e_ = L_<Array{d}D<{t}>>() + {v}; (void)e_.un(0);")]
                for e in (f"(L_<Array{d}D<{t}>>() + {v})", f"(-L_<Array{d}D<{t}>>())"):
                    i = "0" if d == 1 else "0, 0"
                    ls += [("N", f"auto e_ = {e}; e_ = {v};"), ("N", f"auto e_ = {e}; e_ = C_<Array{d}D<{t}>>();"),
                           ("N", f"auto e_ = {e}; e_ += {v};"), ("N", f"auto e_ = {e}; sort_increasing(e_);"),
                           ("N", f"auto e_ = {e}; random(e_);"), ("N", f"auto e_ = {e}; shuffle(e_);"),
                           ("N", f"auto e_ = {e}; [[maybe_unused]] Strict<{t}>& r_ = e_.un({i});"),
                           ("N", f"auto e_ = {e}; [[maybe_unused]] Strict<{t}>& r_ = *e_.begin();")]
                gs.append(G(f"expressions over {d}D {t}", ls))
    if not quad:
        for t in ("double", "int"):
            v = VAL[t]
            ls = []
            for k, c in (("Y", ""), ("N", "const ")):
                for decl in (f"{c}{t} p[4]{{}};", f"{c}{t}* p = nullptr;"):
                    for f in ("attach1D(p, 4)", "attach2D(p, 2, 2)"):
                        i = "0" if "1D" in f else "0, 0"
                        ls += [(k, f"{decl} {f}.un({i}) = {v};"), (k, f"{decl} {f} = {v};"), (k, f"{decl} auto s_ = {f}; *s_.begin() = {v};"),
                               ("N", f"{decl} const auto s_ = {f}; s_.un({i}) = {v};"), ("N", f"{decl} const auto s_ = {f}; *s_.begin() = {v};")]
                ls += [(k, f"{c}{t} p[2][2]{{}}; attach1D(&p[0][0], 4).un(0) = {v};")] if 0 else []
            gs.append(G(f"attach {t}", ls))
        ls = []
        for t in ("int", "long", "unsigned", "double", "bool"):
            for w in (["= Strict<%s>{}" % t] + ([f"{op} Strict<{t}>{{}}" for op in ("+=", "-=", "*=", "/=")] if t != "bool" else [])
                      + ([f"{op} Strict<{t}>{{}}" for op in ("%=", "<<=", ">>=", "&=", "|=", "^=")] if t in ("int", "long", "unsigned") else [])):
                ls += [("Y", f"L_<Strict<{t}>>() {w};"), ("N", f"C_<Strict<{t}>>() {w};")]
            if t != "bool":
                for w in ("++§", "--§", "§++", "§--"):
                    ls += [("Y", "(void)" + w.replace("§", f"L_<Strict<{t}>>()") + ";"), ("N", "(void)" + w.replace("§", f"C_<Strict<{t}>>()") + ";")]
        gs.append(G("strict scalars", ls))
    return gs
