"""P25: arrays hold and combine one element type; indices, sizes and tags accept signed integers only."""
from wit import G

T = ["bool", "int", "long", "unsigned", "unsigned long", "float", "double", "long double"]
SIGNED, UNSIGNED, FLOAT = ["int", "long"], ["unsigned", "unsigned long"], ["float", "double", "long double"]
ALIAS = """
template<class T> using A1 = Array1D<T>; template<class T> using A2 = Array2D<T>;
template<class T> using F1 = FixedArray1D<T, 4>; template<class T> using F2 = FixedArray2D<T, 2, 3>;
template<class T> using Z1 = Array1D<T, Aligned>; template<class T> using Z2 = Array2D<T, Aligned>;
template<class T> using V1 = decltype(L_<Array1D<T>>()(place::even)); template<class T> using V2 = decltype(L_<Array2D<T>>().block(0, 0, 1, 1));
template<class T> using C1 = decltype(C_<Array1D<T>>()(place::even)); template<class T> using C2 = decltype(C_<Array2D<T>>()(place::even, place::all));
template<class T> using E1 = decltype(L_<Array1D<T>>() + Strict<T>{}); template<class T> using E2 = decltype(-L_<Array2D<T>>());
enum E_ { e0_ }; enum class EC_ { e0_ };
"""
OWN = {1: ["A1", "F1", "Z1"], 2: ["A2", "F2", "Z2"]}
MUT = {1: OWN[1] + ["V1"], 2: OWN[2] + ["V2"]}


def S(t):
    return f"Strict<{t}>"


def L(t):
    return f"L_<{t}>()"


def C(t):
    return f"C_<{t}>()"


def groups(quad=False, flavour=""):
    T_ = T + (["float128"] if quad else [])
    F = FLOAT + (["float128"] if quad else [])
    I = SIGNED + UNSIGNED
    R = I + F
    gs = []
    ARITH, BITS, LOGIC = ["+", "-", "*", "/"], ["%", "<<", ">>", "&", "|", "^"], ["&&", "||", "^"]

    def kind(op, t):
        return (t in R if op in ARITH else t in I or (op == "^" and t == "bool") if op in BITS else t == "bool")

    ops = list(dict.fromkeys(ARITH + BITS + LOGIC))
    # ---- elementwise operators: one element type, the right category, the same dimension
    for t in T_:
        ls = []
        a1, a2 = L(f"A1<{t}>"), L(f"A2<{t}>")
        for op in ops:
            k = "Y" if kind(op, t) else "N"
            for u in T_:
                kk = k if t == u else "N"
                for x, y in (("A1", "A1"), ("A1", "F1"), ("V1", "A1"), ("A2", "A2"), ("F2", "V2")):
                    if (t == "bool" or u == "bool") and "E" in x + y:
                        continue
                    if x != y and t != u and (op not in ("+", "%", "&&")):
                        continue
                    code = f"{C(x + '<' + t + '>')} {op} {C(y + '<' + u + '>')}"
                    ls.append((kk, f"TYPE({S(t)}, ({code}).un({'0' if x[1] == '1' else '0, 0'}));" if kk == "Y" else f"(void)({code});"))
                for d in ("A1", "V2"):
                    v = C(f"{d}<{t}>")
                    ls += [(kk, f"(void)({v} {op} {C(S(u))});"), (kk, f"(void)({C(S(u))} {op} {v});")]
                    ls += [("N", f"(void)({v} {op} {C(u)});"), ("N", f"(void)({C(u)} {op} {v});")]
            ls += [("N", f"(void)({a1} {op} {a2});"), ("N", f"(void)({a2} {op} {a1});"), ("N", f"(void)({a1} {op} {L('F2<' + t + '>')});"),
                   ("N", f"(void)({L('V1<' + t + '>')} {op} {L('V2<' + t + '>')});")]
        ls.append(("Y", f"(void){a1}; (void){a2};"))
        gs.append(G(f"operators {t}", ls, decls=ALIAS))
        # compound assignment and assignment
        ls = [("Y", f"(void){a1};")]
        for u in T_ + ["short", "char", "E_"]:
            st = u in T_
            for op in ARITH + BITS:
                k = "Y" if t == u and kind(op, t) and t != "bool" else "N"
                for d in (1, 2):
                    for m in MUT[d]:
                        if t != u and m in ("Z1", "Z2", "F2", "V1"):
                            continue
                        v = L(f"{m}<{t}>")
                        if st:
                            ls += [(k, f"{v} {op}= {C(f'A{d}<{u}>')};"), (k, f"{v} {op}= {C(S(u))};")]
                        if op in "+%":
                            ls += [("N", f"{v} {op}= {C(u)};")]
                        if t == u:
                            ls += [("N", f"{v} {op}= {C(f'A{3 - d}<{t}>')};"), ("N", f"{C(f'{m}<{t}>')} {op}= {C(S(t))};")]
            for d in (1, 2):
                for m in MUT[d]:
                    v = L(f"{m}<{t}>")
                    k = "Y" if t == u else "N"
                    if st:
                        ls += [(k, f"{v} = {C(f'A{d}<{u}>')};"), (k, f"{v} = {C(f'C{d}<{u}>')};"), (k, f"{v} = {C(S(u))};"),
                               (k, f"{v} = {C(f'F{d}<{u}>')};")]
                    ls += [("N", f"{v} = {C(u)};")]
                    br = f"{C(u)}, {C(u)}"
                    ls += [("N", f"{v} = {{{br}}};" if d == 1 else f"{v} = {{{{{br}}}, {{{br}}}}};")]
                    if st:
                        br = f"{C(S(u))}, {C(S(u))}"
                        ls += [(k, f"{v} = {{{br}}};" if d == 1 else f"{v} = {{{{{br}}}, {{{br}}}}};")]
                    if t == u:
                        ls += [("N", f"{v} = {C(f'A{3 - d}<{t}>')};"), ("N", f"{v} = {C(f'V{3 - d}<{t}>')};")]
        gs.append(G(f"assignment {t}", ls, decls=ALIAS))
        # construction of owners
        ls = [("Y", f"(void){a1};")]
        for u in T_ + ["short", "char", "E_"]:
            st = u in T_
            for d in (1, 2):
                for m in OWN[d]:
                    o = f"{m}<{t}>"
                    k = "Y" if t == u else "N"
                    sz = "" if m[0] == "F" else "3, " if d == 1 else "3, 2, "
                    tsz = "" if m[0] == "F" else "Size{3}, " if d == 1 else "Rows{3}, Cols{2}, "
                    if st:
                        ls += [(k, f"{o} x({C(f'A{d}<{u}>')});"), (k, f"{o} x = {C(f'A{d}<{u}>')};"), (k, f"{o} x({C(f'C{d}<{u}>')});"),
                               (k, f"{o} x({C(f'F{d}<{u}>')});"),
                               (k, f"{o} x({sz}{C(S(u))});") if sz or t == u or u not in ("int", "long") else ("N", f"{o} x({C(S(u))});"),
                               (k, f"{o} x({tsz}Value{{{C(S(u))}}});"), (k, f"{o} x({tsz}Value<{t}>{{{C(S(u))}}});"),
                               (k, f"{o} x({tsz}Value<{t}>{{{C(u)}}});")]
                        br = f"{C(S(u))}, {C(S(u))}"
                        ls += [(k, f"{o} x({{{br}}});" if d == 1 else f"{o} x{{{{{br}}}, {{{br}}}}};")]
                        if d == 1:
                            ls += [(k, f"{o} x{{{br}}};"), (k, f"{o} x = {{{br}}};")]
                    ls += [("N", f"{o} x({sz}{C(u)});" if sz else f"{o} x({C(u)});")]
                    br = f"{C(u)}, {C(u)}, {C(u)}, {C(u)}, {C(u)}"
                    ls += [("N", f"{o} x{{{br}}};" if d == 1 else f"{o} x{{{{{br}}}, {{{br}}}}};")]
                    if t == u:
                        ls += [("N", f"{o} x({C(f'A{3 - d}<{t}>')});"), ("N", f"{o} x = {C(f'V{3 - d}<{t}>')};")]
        gs.append(G(f"construction {t}", ls, decls=ALIAS))
        # whole-array functions
        ls = [("Y", f"(void){a1};")]
        fl, rl = t in F, t in R
        for u in T_:
            same = t == u
            for d in ("A1", "V2"):
                v = C(f"{d}<{t}>")
                for f in ("sum", "prod", "min", "max"):
                    ls += [("Y" if rl and same else "N", f"TYPE({S(t)}, {f}({v}, {C(S(u))}));"), ("N", f"(void){f}({v}, {C(u)});")]
                for f in ("mean", "norm_inf", "norm1", "norm2", "norm1_scaled", "norm2_scaled"):
                    ls += [("Y" if fl and same else "N", f"TYPE({S(t)}, {f}({v}, {C(S(u))}));"), ("N", f"(void){f}({v}, {C(u)});")]
                sf = ["stable_sum", "semi_stable_sum", "stable_prod", "stable_mean", "stable_norm1", "stable_norm2"]
                for f in sf:
                    ok = fl
                    ls += [("Y" if ok and same else "N", f"TYPE({S(t)}, {f}({v}, {C(S(u))}));"), ("N", f"(void){f}({v}, {C(u)});")]
                for f in ("any_of", "all_of", "none_of"):
                    ls += [("Y" if same else "N", f"TYPE(StrictBool, {f}({v}, {C(S(u))}));"),
                           ("N", f"(void){f}({v}, {C(u)});"),
                           ("Y" if same and rl else "N", f"TYPE(StrictBool, {f}({v}, Value{{{C(S(u))}}}));"),
                           ("Y" if same else "N", f"(void){f}({v}, []({S(u)}) {{ return true_sb; }});"),
                           ("Y" if t == u == "bool" else "N", f"(void){f}({v}, []({u}) {{ return true_sb; }});"),
                           ("Y" if same else "N", f"(void){f}({v}, {C(f'{d}<{t}>')}, []({S(t)}, {S(u)}) {{ return true_sb; }});"),
                           ("Y", f"(void){f}({v}, {C(f'{d}<{u}>')}, []({S(t)}, {S(u)}) {{ return true_sb; }});"),
                           ("Y" if u == "bool" else "N", f"(void){f}({v}, {C(f'{d}<{u}>')}, []({S(t)}, {u}) {{ return true_sb; }});")]
                ls += [("Y" if same else "N", f"TYPE(StrictBool, {v} == {C(f'{d}<{u}>')});"), ("Y" if same else "N", f"TYPE(StrictBool, {v} != {C(f'{d}<{u}>')});"),
                       ("Y" if same and rl else "N", f"TYPE({S(t)}, dot_prod({v}, {C(f'{d}<{u}>')}));"),
                       ("N", f"(void)({v} == {C(S(u))});"), ("N", f"(void)({v} == {C(u)});")]
                ls += [("Y" if rl and same else "N", f"(void)has_zero({v}); (void)all_pos({v}); {S(u)} x = {v}.un({'0' if d == 'A1' else '0, 0'});")]
            v = C(f"A1<{t}>")
            ls += [("Y" if rl and same else "N", f"TYPE({S(t)}, polynomial({v}, {C(S(u))}));"), ("N", f"(void)polynomial({v}, {C(u)});"),
                   ("Y" if rl and u in SIGNED else "N", f"(void)polynomial({v}, {C(S(t))}, {C(f'A1<{u}>')});"),
                   ("Y" if rl and same else "N", f"(void)in_open_range({L(f'A1<{t}>')}, {C(S(u))}, {C(S(u))});"),
                   ("Y" if rl and same else "N", f"(void)in_closed_range({L(f'A1<{t}>')}, Low{{{C(S(u))}}}, High{{{C(S(u))}}});"),
                   ("N", f"(void)in_open_range({L(f'A1<{t}>')}, {C(u)}, {C(u)});"),
                   ("Y" if same else "N", f"{L(f'A1<{t}>')}.insert(0, {C(S(u))});"), ("N", f"{L(f'A1<{t}>')}.insert(0, {C(u)});"),
                   ("Y" if same else "N", f"{L(f'A1<{t}>')}.insert(Pos{{0}}, Value{{{C(S(u))}}});"),
                   ("Y" if same else "N", f"{L(f'A1<{t}>')}.insert_back({C(S(u))});"), ("Y" if same else "N", f"{L(f'A1<{t}>')}.insert_front({C(S(u))});"),
                   ("Y" if same else "N", f"{L(f'A1<{t}>')}.insert(0, {C(f'V1<{u}>')});"),
                   ("Y" if same else "N", f"{L(f'A1<{t}>')}.resize_and_assign({C(f'V1<{u}>')});"),
                   ("Y" if same else "N", f"{L(f'A2<{t}>')}.resize_and_assign({C(f'V2<{u}>')});"),
                   ("Y" if same else "N", f"{L(f'A1<{t}>')}.swap({L(f'A1<{u}>')});"), ("Y" if same else "N", f"{L(f'A2<{t}>')}.swap({L(f'A2<{u}>')});"),
                   ("Y" if same else "N", f"{L(f'A2<{t}>')}.insert_rows(0, {C(f'V2<{u}>')});"), ("Y" if same else "N", f"{L(f'A2<{t}>')}.insert_row(0, {C(f'V1<{u}>')});"),
                   ("Y" if same else "N", f"(void)merge({v}, {C(S(u))});"), ("Y" if same else "N", f"(void)merge({C(S(u))}, {v});"),
                   ("Y" if same else "N", f"(void)merge({v}, {C(f'A1<{u}>')});"),
                   ("Y" if same else "N", f"(void)merge_horizontal({C(f'A2<{t}>')}, {C(f'A2<{u}>')});"),
                   ("Y" if same and rl else "N", f"(void)matvec_prod({C(f'A2<{t}>')}, {C(f'A1<{u}>')});"),
                   ("Y" if same and rl else "N", f"(void)tensor_prod({v}, {C(f'A1<{u}>')}).eval();"),
                   ("Y" if same and fl else "N", f"(void)two_prod({v}, {C(f'A1<{u}>')});"),
                   ("Y" if fl and u in SIGNED else "N", f"(void)pow_prod({v}, {C(f'A1<{u}>')});"),
                   ("Y" if fl and same else "N", f"(void)pow({v}, {C(S(u))});"), ("N", f"(void)pow({v}, {C(u)});")]
        for f in ("exp", "log", "log2", "log10", "sqrt", "cbrt", "sin", "cos", "tan", "inv"):
            ls += [("Y" if fl else "N", f"TYPE({S(t)}, {f}({C(f'A1<{t}>')}).un(0));")]
        for f in ("all_finite", "has_inf", "has_nan"):
            ls += [("Y" if fl else "N", f"TYPE(StrictBool, {f}({C(f'A1<{t}>')}));")]
        ls += [("Y" if rl else "N", f"(void)+{C(f'A2<{t}>')};"), ("Y" if t in I else "N", f"(void)~{C(f'A2<{t}>')};"),
               ("Y" if t == "bool" else "N", f"(void)!{C(f'A2<{t}>')};"), ("Y" if rl else "N", f"(void)-{C(f'A1<{t}>')};"),
               ("Y" if rl else "N", f"sort_increasing({L(f'A1<{t}>')});"), ("Y" if rl else "N", f"(void)min_index({C(f'A1<{t}>')});"),
               ("N", f"(void)any_of({C(f'A1<{t}>')}, []({S(t)}) {{ return true; }});"), ("N", f"(void)any_of({C(f'A1<{t}>')}, []({S(t)}) {{ return 1_si; }});"),
               ("N", f"for_each({L(f'A1<{t}>')}, []({S(t)}) {{ return 1; }});"), ("Y", f"for_each({L(f'A1<{t}>')}, []({S(t)}&) {{ }});"),
               ("N", f"sort({L(f'A1<{t}>')}, []({S(t)}, {S(t)}) {{ return true; }});"), ("N", f"(void)in_cond_range({L(f'A1<{t}>')}, []({S(t)}) {{ return true; }});")]
        for u in T_:
            ls += [("Y", f"TYPE({S(u)}, array_cast<{u}>({C(f'A1<{t}>')}).un(0));")] if t != "bool" and u != "bool" else []
        gs.append(G(f"functions {t}", ls, decls=ALIAS))

    # ---- element types
    ls = [("Y", "(void)1;")]
    for t in T_:
        ls += [("Y", f"Array1D<{t}> a; Array2D<{t}> b; FixedArray1D<{t}, 2> c; FixedArray2D<{t}, 2, 2> d;"),
               ("Y", f"YES(std::is_same_v<ValueTypeOf<Array1D<{t}>>, Strict<{t}>>); YES(std::is_same_v<BuiltinTypeOf<Array2D<{t}>>, {t}>);")]
    for t in T_:
        for q in (f"const {t}", f"volatile {t}", f"{t}&", f"{t}*", f"Strict<{t}>", f"const Strict<{t}>"):
            ls += [("N", f"Array1D<{q}> a;"), ("N", f"Array2D<{q}> a;"), ("N", f"FixedArray1D<{q}, 2> a;"), ("N", f"FixedArray2D<{q}, 2, 2> a;"),
                   ("N", f"(void)sizeof(Strict<{q}>);")]
    for t in ("char", "signed char", "unsigned char", "short", "unsigned short", "long long", "unsigned long long", "void", "E_", "EC_",
              "wchar_t", "char8_t", "char16_t", "std::string", "std::vector<double>", "Array1D<double>", "ImplicitInt", "Last"):
        ls += [("N", f"Array1D<{t}> a;"), ("N", f"Array2D<{t}> a;"), ("N", f"FixedArray1D<{t}, 2> a;"), ("N", f"FixedArray2D<{t}, 2, 2> a;"),
               ("N", f"(void)sizeof(Strict<{t}>);")]
    ls += [("N", "FixedArray1D<int, -1> a;"), ("N", "FixedArray2D<int, -2, -2> a;"), ("N", "FixedArray2D<int, 0, 2> a;"),
           ("N", "FixedArray2D<int, 2, 0> a;"), ("Y", "FixedArray1D<int, 0> a; FixedArray2D<int, 0, 0> b;"), ("N", "FixedArray1D<int, 2u> a;"),
           ("N", "FixedArray1D<int, 2.> a;"), ("N", "FixedArray1D<int, true> a;"), ("Y", "FixedArray1D<int, 2l> a; FixedArray1D<int, 2_sl> b; FixedArray1D<int, 2_si> c;"),
           ("N", "FixedArray1D<int, 2ul> a;"), ("N", "FixedArray1D<int, 'a'> a;"), ("N", "FixedArray1D<int, 2_sd> a;")]
    gs.append(G("element types", ls, decls=ALIAS))

    # ---- indices, sizes, positions, tags
    yes = ["int", "long", "Strict<int>", "Strict<long>", "ImplicitInt"]
    no = ["bool", "char", "unsigned", "unsigned long", "float", "double", "long double", "Strict<bool>", "Strict<unsigned>",
          "Strict<unsigned long>", "Strict<float>", "Strict<double>", "Strict<long double>", "E_", "EC_", "void*", "unsigned char",
          "unsigned short", "unsigned long long"]
    if quad:
        no += ["float128", "Strict<float128>"]
    INDEX = []
    for d in ("A1", "F1", "V1", "C1", "E1"):
        INDEX += [f"(void){L(f'{d}<double>')}[§];", f"(void){L(f'{d}<double>')}.un(§);", f"(void){L(f'{d}<double>')}.at(§);",
                  f"(void){C(f'{d}<double>')}[§];", f"(void){C(f'{d}<double>')}.un(§);", f"(void){C(f'{d}<double>')}.at(§);"]
    for d in ("A2", "F2", "V2", "C2", "E2"):
        for q in (L, C):
            a = q(f"{d}<double>")
            INDEX += [f"(void){a}(§, 0);", f"(void){a}(0, §);", f"(void){a}.un(§, 0);", f"(void){a}.un(0, §);", f"(void){a}.at(§, 0);",
                      f"(void){a}.at(0, §);", f"(void){a}.row(§);", f"(void){a}.col(§);", f"(void){a}.block(§, 0, 1, 1);",
                      f"(void){a}.block(0, §, 1, 1);", f"(void){a}.block(0, 0, §, 1);", f"(void){a}.block(0, 0, 1, §);",
                      f"(void){a}.blockN(§, 0, 1, 1);", f"(void){a}.blockN(0, §, 1, 1);"]
    INT = []      # parameters that are not relative to the end
    for d in ("A1", "V1"):
        INT += [f"(void){L(f'{d}<double>')}.view2D(§, 1);", f"(void){L(f'{d}<double>')}.view2D(1, §);"]
    for d in ("A2", "V2"):
        INT += [f"(void){L(f'{d}<double>')}.blockN(0, 0, §, 1);", f"(void){L(f'{d}<double>')}.blockN(0, 0, 1, §);",
                f"(void){L(f'{d}<double>')}.diag(§);", f"(void){C(f'{d}<double>')}.un(§);", f"(void){C(f'{d}<double>')}.view2D(§, 1);"]
    a1, a2 = L("A1<double>"), L("A2<double>")
    INT += [f"{a1}.resize(§);", f"{a1}.remove(§);", f"{a1}.remove(0, §);", f"{a1}.remove_front(§);", f"{a1}.remove_back(§);",
            f"{a1}.insert(§, 1._sd);", f"{a1}.insert(§, {a1});", f"{a2}.resize(§, 1);", f"{a2}.resize(1, §);", f"{a2}.remove_rows(§, 1);",
            f"{a2}.remove_rows(0, §);", f"{a2}.remove_cols(§, 1);", f"{a2}.remove_cols(0, §);", f"{a2}.remove_row(§);", f"{a2}.remove_col(§);",
            f"{a2}.insert_row(§, {a1});", f"{a2}.insert_col(§, {a1});", f"{a2}.insert_rows(§, {a2});", f"{a2}.insert_cols(§, {a2});",
            "A1<double> x(§); (void)x;", "Z1<double> x(§); (void)x;", "A1<double> x(§, 1._sd);", "A2<double> x(§, 1);", "A2<double> x(1, §);",
            "Z2<double> x(§, 1);", "A2<double> x(§, 1, 1._sd);", "A2<double> x(1, §, 1._sd);",
            "(void)irange(§);", "(void)const1D(§, 1._sd);", "(void)const2D(§, 1, 1._sd);", "(void)const2D(1, §, 1._sd);",
            "(void)linspace(§, 0._sd, 1._sd);", "(void)e_unit<double>(§, 4);", "(void)e_unit<double>(0, §);", "(void)identity<double>(§);",
            "(void)random<double>(§);", "(void)random<double>(§, 2);", "(void)random<double>(2, §);",
            f"(void)exclude({a1}, §);", f"(void)exclude({a1}, 0, §);", f"(void)pow_int({a1}, §);", f"(void)fast_pow_int({a1}, §);",
            f"(void)norm_lp({a1}, §);", f"(void)norm_lp_scaled({a1}, §);", f"(void)stable_norm_lp({a1}, §);",
            "(void)seqN(§, 1);", "(void)seqN(0, §);", "(void)seqN(0, 1, §);", "(void)seq(§, 1);", "(void)seq(0, §);", "(void)seq(0, 1, §);",
            "(void)place::skipN(§);", "(void)place::firstN(§);", "(void)place::lastN(§);", "(void)place::complement({§});",
            f"(void){a1}({{§}});", f"(void){a1}({{0, §}});", f"(void){a2}({{§}}, {{0}});", f"(void){a2}({{0}}, {{§}});",
            f"(void){a2}.rows({{§}});", f"(void){a2}.cols({{0, §}});", f"(void){a1}(std::vector<ImplicitInt>{{0, 0, §}});",
            "(void)(last - §);", f"{a1}.remove(std::vector<ImplicitInt>{{0, 0, §}});"]
    TAG = [f"(void){t}{{§}};" for t in ("First", "Endmost", "Size", "Count", "Pos", "Stride", "Index", "Rows", "Cols")]
    for name, tmpl, end in (("index", INDEX, True), ("size", INT, False), ("tag", TAG, False)):
        ls = [("Y", "(void)1;")]
        for t in tmpl:
            ls += [("Y", t.replace("§", C(x))) for x in yes if not (name == "tag" and x == "ImplicitInt")]
            ls += [("N", t.replace("§", C(x))) for x in no]
            if end:
                ls += [("Y", t.replace("§", "last")), ("Y", t.replace("§", "last - 1"))]
        gs.append(G(f"{name} arguments", ls, decls=ALIAS))
    # tags are not interchangeable with plain values or with each other
    tags = ["First", "Endmost", "Size", "Count", "Pos", "Stride", "Index", "Rows", "Cols"]
    SL = [("(void)seqN(First{0}, Size{1});", 2), ("(void)seqN(First{0}, Size{1}, Stride{1});", 3), ("(void)seq(First{0}, Endmost{1});", 2),
          ("(void)seq(First{0}, Endmost{1}, Stride{1});", 3), ("A1<double> x(Size{3});", 1), ("A2<double> x(Rows{3}, Cols{2});", 2),
          ("A1<double> x(Size{3}, Value{1._sd});", 1), ("A2<double> x(Rows{3}, Cols{2}, Value{1._sd});", 2), (f"{a1}.remove(Pos{{0}}, Count{{1}});", 2),
          (f"{a1}.remove(Pos{{0}});", 1), (f"{a1}.remove_front(Count{{1}});", 1), (f"{a1}.remove_back(Count{{1}});", 1),
          (f"{a1}.insert(Pos{{0}}, Value{{1._sd}});", 1), (f"{a1}.insert(Pos{{0}}, {a1});", 1), (f"{a2}.remove_rows(Pos{{0}}, Count{{1}});", 2),
          (f"{a2}.remove_cols(Pos{{0}}, Count{{1}});", 2), (f"{a2}.remove_row(Pos{{0}});", 1), (f"{a2}.remove_col(Pos{{0}});", 1),
          (f"{a2}.insert_row(Pos{{0}}, {a1});", 1), (f"{a2}.insert_rows(Pos{{0}}, {a2});", 1), (f"{a2}.insert_col(Pos{{0}}, {a1});", 1),
          (f"{a2}.insert_cols(Pos{{0}}, {a2});", 1), ("(void)const1D(Size{3}, Value{1._sd});", 1), ("(void)const2D(Rows{3}, Cols{2}, Value{1._sd});", 2),
          ("(void)linspace(Size{3}, Start{0._sd}, End{1._sd});", 1), ("(void)e_unit<double>(Index{0}, Size{3});", 2),
          (f"(void)exclude({a1}, Pos{{0}}, Count{{1}});", 2), (f"(void)exclude({a1}, Pos{{0}});", 1)]
    import re
    ls = []
    for code, n in SL:
        ls.append(("Y", code))
        ms = [m for m in re.finditer(r"\b(%s)\{(\d)\}" % "|".join(tags), code)]
        for m in ms:
            for o in tags:
                if o != m.group(1):
                    if "remove(Pos{0})" in code and o == "Count":
                        pass
                    ls.append(("N", code[:m.start()] + f"{o}{{{m.group(2)}}}" + code[m.end():]))
        if len(ms) > 1:
            for m in ms:
                ls.append(("N", code[:m.start()] + m.group(2) + code[m.end():]))
    for t in tags:
        ls += [("N", f"{t} x = 1;"), ("N", f"{t} x = 1_sl;"), ("N", f"long x = {t}{{1}};"), ("N", f"ImplicitInt x = {t}{{1}};"),
               ("N", f"(void)L_<A1<double>>()[{t}{{1}}];"), ("N", f"index_t x = {t}{{1}};")]
        ls += [("N", f"(void)({t}{{1}} == {o}{{1}});") for o in tags if o != t]
        ls += [("N", f"(void){t}{{{C(o)}}};") for o in tags if o != t]
    for t in ("Low", "High", "Start", "End", "Value", "Incr"):
        for u in T_:
            ls += [("Y", f"TYPE({t}<{u}>, {t}{{{C(S(u))}}});"), ("N", f"{t}<{u}> x = {C(S(u))};"), ("N", f"{t}<{u}> x = {C(u)};")] if u != "bool" else []
            for v in T_:
                if v != u and u != "bool" and v != "bool":
                    ls += [("N", f"{t}<{u}> x{{{C(S(v))}}};"), ("N", f"{t}<{u}> x{{{C(v)}}};")]
    gs.append(G("tags", ls, decls=ALIAS))
    # ImplicitBool, Seed, last
    ls = [("Y", f"{a1}.resize(3, true);"), ("Y", f"{a1}.resize(3, true_sb);"), ("N", f"{a1}.resize(3, 1);"), ("N", f"{a1}.resize(3, 1_si);"),
          ("N", f"{a1}.resize(3, nullptr);"), ("N", f"{a1}.resize(3, 0.);"), ("N", f"{a2}.resize(3, 3, 1);"), ("N", f"{a2}.resize(3, 3, 1_sl);"),
          ("Y", "(void)Seed{1u}; (void)Seed{1_sui};"), ("N", "(void)Seed{1};"), ("N", "(void)Seed{1l};"), ("N", "(void)Seed{1.};"), ("N", "(void)Seed{1_sl};"),
          ("N", "ImplicitInt x = last;"), ("N", f"{a1}.resize(last);"), ("N", "A1<double> x(last);"), ("N", "long x = last;"),
          ("N", f"(void){a1}.view2D(last, 1);"), ("N", "(void)(last * 2);"), ("N", "(void)(last == 2);")]
    gs.append(G("other arguments", ls, decls=ALIAS))
    if quad:      # the other types are covered by the run without quad precision
        for g in gs:
            first = next(c for k, c in g.lines if k == "Y")
            g.lines = [("Y", first)] + [(k, c) for k, c in g.lines if "float128" in c]
    import re as _re
    for g in gs:      # rejected programs use the expression, not only its type
        g.lines = [(k, _re.sub(r"^TYPE\([^;]*?(?:>|StrictBool), (.*)\);$", r"(void)(\1);", c) if k == "N" and c.startswith("TYPE(") else c)
                   for k, c in g.lines]
    return gs
