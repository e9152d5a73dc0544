"""P01: no mixing of types in scalar operations, and no conversion that was not asked for."""
from wit import G

BASE = ["bool", "int", "long", "unsigned", "unsigned long", "float", "double", "long double"]
SIGNED, UNSIGNED = ["int", "long"], ["unsigned", "unsigned long"]
FLOAT = ["float", "double", "long double"]
FOREIGN = ["char", "short", "unsigned char", "long long", "unsigned long long", "E_", "void*"]  # never an element type


def S(t):
    return f"Strict<{t}>"


def L(t):
    return f"L_<{t}>()"


def groups(quad=False, flavour=""):
    T = BASE + (["float128"] if quad else [])
    F = FLOAT + (["float128"] if quad else [])
    I = SIGNED + UNSIGNED
    R = I + F
    gs = []
    enum = "enum E_ { e0_ }; enum class EC_ { e0_ };"

    # ---- construction, conversion and assignment
    for t in T:
        ls = []
        for u in T:
            k = "Y" if t == u else "N"
            ls += [(k, f"{S(t)} x{{{L(u)}}};"), (k, f"{S(t)} x({L(u)});"), (k, f"{S(t)} x{{std::as_const({L(u)})}};"),
                   (k, f"{S(t)} x{{X_<{u}>()}};"),
                   ("N", f"{S(t)} x = {L(u)};"), ("N", f"{L(S(t))} = {L(u)};"),
                   ("N", f"auto f = []({S(t)}) {{}}; f({L(u)});"),
                   (k, f"{S(t)} x{{{L(S(u))}}};"), (k, f"{S(t)} x = {L(S(u))};"), (k, f"{L(S(t))} = {L(S(u))};"),
                   (k, f"auto f = []({S(t)}) {{}}; f({L(S(u))});"), (k, f"TYPE({S(t)}&, {L(S(t))} = {L(S(u))});"),
                   (k, f"(void)static_cast<{t}>({L(S(u))});"), (k, f"using V = {t}; (void)(V{{{L(S(u))}}});"),
                   ("Y" if t == u == "bool" else "N", f"{t} x = {L(S(u))};"),
                   ("N", f"{t}& x = {L(S(u))};"), ("N", f"{t}* x = &{L(S(u))};"),
                   ("N", f"{L(t)} += {L(S(u))};"),
                   ("Y" if t == u == "bool" else "N", f"{L(t)} = {L(S(u))};")]
            # conversions that are asked for
            ls += [("Y", f"TYPE({S(t)}, strict_cast<{t}>({L(u)}));"), ("Y", f"TYPE({S(t)}, strict_cast<{t}>({L(S(u))}));"),
                   ("Y", f"TYPE({t}, builtin_cast<{t}>({L(u)}));"), ("Y", f"TYPE({t}, builtin_cast<{t}>({L(S(u))}));")]
            if t in R:
                k2 = "Y" if u in R else "N"
                ls += [(k2, f"TYPE({t}, real_cast<{t}>({L(u)}));"), (k2, f"TYPE({t}, real_cast<{t}>({L(S(u))}));")]
            k3 = "Y" if t in F and u in I else "N"
            ls += [(k3, f"TYPE({S(t)}, whole<{t}>({L(u)}));"), (k3, f"TYPE({S(t)}, whole<{t}>({L(S(u))}));")]
        for u in FOREIGN + ["EC_"]:
            ls += [("N", f"{S(t)} x{{{L(u)}}};"), ("N", f"{S(t)} x({L(u)});"), ("N", f"{S(t)} x = {L(u)};"),
                   ("N", f"{L(S(t))} = {L(u)};"), ("N", f"(void)strict_cast<{u}>({L(S(t))});"),
                   ("N", f"(void)static_cast<{u}>({L(S(t))});")]
        ls += [("N", f"X_<{S(t)}>() = {L(S(t))};"), ("N", f"C_<{S(t)}>() = {L(S(t))};"), ("N", f"std::move({L(S(t))}) = {L(S(t))};"),
               ("Y", f"{S(t)} x; (void)x;"), ("Y", f"YES(std::is_trivially_copyable_v<{S(t)}>);"),
               ("Y", f"YES(sizeof({S(t)}) == sizeof({t}) && alignof({S(t)}) == alignof({t}));"),
               ("Y", f"TYPE({t}, {L(S(t))}.val());"), ("Y", f"TYPE({t}, C_<{S(t)}>().val());"), ("N", f"{L(S(t))}.val() = {L(t)};"),
               ("N", f"{S(t)} x{{}}; x.val_;"), ("N", f"{S(t)} x{{nullptr}};"), ("N", f"{S(t)} x{{\"1\"}};"),
               ("Y", f"TYPE({S(t)}, Strict{{{L(t)}}});")]
        for m, u in zip(["sb", "si", "sl", "sui", "sul", "sf", "sd", "sld", "sq"], T):
            ls.append(("Y", f"TYPE({S(u)}, {L(S(t))}.{m}());"))
        gs.append(G(f"conversions to {t}", ls, decls=f"namespace {{ {enum} }}" if t == "bool" else ""))

    # ---- a strict value is not a condition, an index or a case label of another type
    ls = [("Y", "if(L_<StrictBool>()) {}"), ("Y", "while(L_<StrictBool>()) {}"), ("Y", "(void)(L_<StrictBool>() ? 1 : 2);")]
    for t in T:
        if t == "bool":
            continue
        ls += [("N", f"if({L(S(t))}) {{}}"), ("N", f"while({L(S(t))}) {{}}"), ("N", f"(void)({L(S(t))} ? 1 : 2);"),
               ("N", f"(void)!{L(S(t))};"), ("N", f"int a[3]; (void)a[{L(S(t))}];"), ("N", f"int* p = nullptr; p += {L(S(t))};"),
               ("N", f"int* p = nullptr; (void)(p + {L(S(t))});"), ("N", f"switch({L(S(t))}) {{ default: ; }}"),
               ("N", f"(void)({L(S(t))} && true);"), ("N", f"(void)(true || {L(S(t))});")]
    ls += [("N", "int a[3]; (void)a[L_<StrictBool>()];"), ("N", "int* p = nullptr; p += L_<StrictBool>();"),
           ("N", "int x = L_<StrictBool>();"), ("N", "double x = L_<StrictBool>();"), ("N", "long x{L_<StrictBool>()};")]
    gs.append(G("conditions, indices, labels", ls))

    # ---- binary operators
    OPS = [(o, R, None) for o in "+-*/"] + [(o, I, None) for o in ("%", "<<", ">>", "&", "|")] \
        + [("^", I + ["bool"], None), ("&&", ["bool"], "StrictBool"), ("||", ["bool"], "StrictBool")] \
        + [(o, T, "StrictBool") for o in ("==", "!=", "<", "<=", ">", ">=")]
    for op, dom, res in OPS:
        ls = []
        for t in T:
            for u in T:
                ok = t == u and t in dom
                ls.append(("Y", f"TYPE({res or S(t)}, {L(S(t))} {op} {L(S(u))});") if ok else
                          ("N", f"(void)({L(S(t))} {op} {L(S(u))});"))
                if t == u == "bool" or op in ("&&", "||") and "bool" in (t, u):
                    continue                    # a boolean is meant to work in the conditions of the language
                ls += [("N", f"(void)({L(S(t))} {op} {L(u)});"), ("N", f"(void)({L(t)} {op} {L(S(u))});")]
            if t != "bool":
                ls += [("N", f"(void)({L(S(t))} {op} 1);"), ("N", f"(void)(1.0 {op} {L(S(t))});"),
                       ("N", f"(void)({L(S(t))} {op} 'a');"), ("N", f"(void)({L(S(t))} {op} nullptr);")]
            for tag in ("Low", "High", "Value", "Start"):
                ls.append(("N", f"(void)({L(S(t))} {op} {tag}{{{L(S(t))}}});"))
        gs.append(G(f"binary {op}", ls))

    # ---- compound assignment
    for op, dom in [(o, R) for o in "+-*/"] + [(o, I) for o in ("%", "<<", ">>", "&", "|", "^")]:
        ls = []
        for t in T:
            for u in T:
                ok = t == u and t in dom
                ls.append(("Y", f"TYPE({S(t)}&, {L(S(t))} {op}= {L(S(u))});") if ok else
                          ("N", f"{L(S(t))} {op}= {L(S(u))};"))
                ls.append(("N", f"{L(S(t))} {op}= {L(u)};"))
            ls += [("N", f"X_<{S(t)}>() {op}= {L(S(t))};"), ("N", f"C_<{S(t)}>() {op}= {L(S(t))};"),
                   ("N", f"({L(S(t))} + {L(S(t))}) {op}= {L(S(t))};"), ("N", f"{L(S(t))} {op}= 1;"), ("N", f"{L(S(t))} {op}= 1.0;")]
        gs.append(G(f"compound {op}=", ls))

    # ---- unary
    ls = []
    for t in T:
        for op, dom, res in (("+", R, S(t)), ("-", SIGNED + F, S(t)), ("~", I, S(t)), ("!", ["bool"], "StrictBool")):
            if op in "+-~" and t == "bool":
                ls.append(("N", f"auto x = {op}{L(S(t))}; Strict y = x; (void)y;"))
                continue
            ls.append(("Y", f"TYPE({res}, {op}{L(S(t))}); (void)({op}{L(S(t))});") if t in dom else ("N", f"(void)({op}{L(S(t))});"))
        for op in ("++", "--"):
            k = "Y" if t in R else "N"
            ls += [(k, f"TYPE({S(t)}&, {op}{L(S(t))});"), (k, f"TYPE({S(t)}, {L(S(t))}{op});"),
                   ("N", f"{op}X_<{S(t)}>();"), ("N", f"X_<{S(t)}>(){op};"), ("N", f"{op}C_<{S(t)}>();"), ("N", f"C_<{S(t)}>(){op};")]
        ls.append(("N", f"(void)*{L(S(t))};"))
    gs.append(G("unary", ls))

    # ---- functions
    un = [(f, R) for f in ("signs", "abss", "squares", "cubes")] + [(f, F) for f in (
        "invs", "exps", "logs", "log2s", "log10s", "sqrts", "cbrts", "sins", "coss", "tans", "floors", "ceils",
        "isinfs", "isnans", "isfinites")]
    for f, dom in un:
        ls = []
        for t in T:
            r = "StrictBool" if f.startswith("is") else S(t)
            if t in dom and not (f == "signs" and t in UNSIGNED):
                ls.append(("Y", f"TYPE({r}, {f}({L(S(t))}));"))
            elif t not in dom:
                ls.append(("N", f"(void){f}({L(S(t))});"))
            ls.append(("N", f"(void){f}({L(t)});"))
        gs.append(G(f, ls))
    for f, dom, res in [("mins", R, None), ("maxs", R, None), ("pows", R, None), ("equal", T, "StrictBool"),
                        ("two_sums", F, "use::StrictPair"), ("two_prods", F, "use::StrictPair")]:
        ls = []
        for t in T:
            for u in T:
                ok = t == u and t in dom
                r = f"{res}<{S(t)}>" if res and "Pair" in res else res or S(t)
                ls.append(("Y", f"TYPE({r}, {f}({L(S(t))}, {L(S(u))}));") if ok else ("N", f"(void){f}({L(S(t))}, {L(S(u))});"))
                ls += [("N", f"(void){f}({L(S(t))}, {L(u)});"), ("N", f"(void){f}({L(t)}, {L(S(u))});"),
                       ("N", f"(void){f}({L(t)}, {L(u)});")]
        gs.append(G(f, ls))
    for f, dom, res in [("fmas", F, None), ("clamps", R, None), ("in_open", R, "StrictBool"), ("in_closed", R, "StrictBool")]:
        ls = []
        for t in T:
            for u in T:
                ok = t == u and t in dom
                for a in ((t, t, u), (t, u, t), (u, t, t)):
                    c = f"{f}({', '.join(L(S(x)) for x in a)})"
                    ls.append(("Y", f"TYPE({res or S(t)}, {c});") if ok else ("N", f"(void){c};"))
                for a in ((L(S(t)), L(S(t)), L(u)), (L(S(t)), L(u), L(S(t))), (L(u), L(S(t)), L(S(t)))):
                    ls.append(("N", f"(void){f}({', '.join(a)});"))
            if f == "clamps" and t in R:
                s = L(S(t))
                ls += [("Y", f"TYPE({S(t)}, clamps({s}, Low{{{s}}}, High{{{s}}}));"), ("N", f"(void)clamps({s}, High{{{s}}}, Low{{{s}}});"),
                       ("N", f"(void)clamps({s}, Low{{{s}}}, Low{{{s}}});"), ("N", f"(void)clamps({s}, Low{{{s}}}, {s});"),
                       ("N", f"(void)clamps({s}, {s}, High{{{s}}});")]
                ls += [("N", f"(void)clamps({s}, Low{{{L(S(u))}}}, High{{{s}}});") for u in R if u != t]
                ls += [("N", f"(void)clamps({s}, Low{{{s}}}, High{{{L(S(u))}}});") for u in R if u != t]
            if f.startswith("in_") and t in R:
                s = L(S(t))
                ls += [("Y", f"TYPE(StrictBool, {f}(Value{{{s}}}, Low{{{s}}}, High{{{s}}}));"),
                       ("N", f"(void){f}(Value{{{s}}}, High{{{s}}}, Low{{{s}}});"), ("N", f"(void){f}({s}, Low{{{s}}}, High{{{s}}});"),
                       ("N", f"(void){f}(Low{{{s}}}, Value{{{s}}}, High{{{s}}});")]
                ls += [("N", f"(void){f}(Value{{{s}}}, Low{{{L(S(u))}}}, High{{{s}}});") for u in R if u != t]
        gs.append(G(f, ls))
    ls = []
    for f in ("pows_int", "fast_pows_int", "pow_prods"):
        for t in T:
            if t in F:
                r = S(t) if f != "pow_prods" else f"use::StrictPair<{S(t)}>"
                ls += [("Y", f"TYPE({r}, {f}({L(S(t))}, {p}));") for p in ("2", "2L", "2_si", "2_sl", "L_<ImplicitInt>()")]
                ls += [("N", f"(void){f}({L(S(t))}, {p});") for p in
                       ("2u", "2UL", "2.0", "2.f", "true", "2_sui", "2._sd", "'a'", "short(2)", "true_sb", "2LL")]
            else:
                ls.append(("N", f"(void){f}({L(S(t))}, 2);"))
            ls.append(("N", f"(void){f}({L(t)}, 2);"))
    for f in ("factorial(§)", "binom_coeff(§, 1)", "binom_coeff(5, §)", "exps_int<double>(§)"):
        r = "Strict<double>" if "exps" in f else "Strict<long>"
        ls += [("Y", f"TYPE({r}, {f.replace('§', p)});") for p in ("2", "2L", "2_si", "2_sl")]
        ls += [("N", f"(void){f.replace('§', p)};") for p in ("2u", "2UL", "2.0", "2.f", "true", "2_sui", "2._sd", "'a'", "true_sb")]
    gs.append(G("integer powers and combinatorics", ls))

    # ---- literals
    ls = []
    for s, t in (("si", "int"), ("sl", "long"), ("sui", "unsigned"), ("sul", "unsigned long")):
        for x in (s, s.upper()):
            ls += [("Y", f"TYPE({S(t)}, 1_{x});"), ("Y", f"constexpr auto x = 5_{x}; YES(x.val() == 5);")]
            if s != "sl":
                ls.append(("N", f"(void)1.0_{x};"))
            ls.append(("N", f"(void)\"1\"_{x};"))
            ls.append(("N", f"(void)'1'_{x};"))
    for s, t in (("sf", "float"), ("sd", "double"), ("sl", "long double")):
        for x in (s, s.upper()):
            ls += [("Y", f"TYPE({S(t)}, 1.5_{x});"), ("Y", f"constexpr auto x = 1.5_{x}; YES(x.val() == 1.5);")]
            if s != "sl":
                ls.append(("N", f"(void)1_{x};"))
    # out of the type's range: rejected when compiled
    if "nodebug" not in flavour:
        ls += [("N", "(void)2147483648_si;"), ("N", "(void)9223372036854775808_sl;"), ("N", "(void)2147483648_SI;"),
               ("N", "(void)9223372036854775808_SL;"), ("N", "(void)4294967296_sui;"), ("N", "(void)4294967296_SUI;"),
               ("N", "(void)18446744073709551615_sui;")]
    ls += [("Y", "YES((4294967295_sui).val() == 4294967295U);"), ("Y", "YES((18446744073709551615_sul).val() == 18446744073709551615UL);"),
           ("Y", "YES((0_sui).val() == 0U && (0_si).val() == 0 && (2147483648_sui).val() == 2147483648U);")]
    ls += [("Y", "YES((2147483647_si).val() == 2147483647);"), ("Y", "YES((9223372036854775807_sl).val() == 9223372036854775807L);")]
    if quad:
        ls += [("Y", "TYPE(Strict<float128>, 1.5_sq);"), ("Y", "TYPE(Strict<float128>, 1.5_SQ);")]
    gs.append(G("literals", ls))

    # ---- constant expressions
    ls = []
    for t in T:
        v = f"{S(t)}{{{t}(6)}}" if " " not in t else f"Strict<{t}>{{static_cast<{t}>(6)}}"
        w = v.replace("6", "4")
        if t in R:
            ls += [("Y", f"constexpr auto x = {v} {op} {w}; YES(x.val() == static_cast<{t}>(6) {op} static_cast<{t}>(4));") for op in "+-*/"]
            ls.append(("Y", f"YES(({v} > {w}).val() && ({v} != {w}).val() && !({v} < {w}).val());"))
        if t in I:
            ls += [("Y", f"constexpr auto x = {v} {op} {w}; YES(x.val() == (static_cast<{t}>(6) {op} static_cast<{t}>(4)));")
                   for op in ("%", "<<", ">>", "&", "|", "^")]
            if "nodebug" not in flavour:
                z = v.replace("6", "0")
                ls += [("N", f"constexpr auto x = {v} / {z}; (void)x;"), ("N", f"constexpr auto x = {v} % {z}; (void)x;")]
        ls.append(("Y", f"constexpr {S(t)} x; YES(x.val() == 0);"))
        ls.append(("Y", f"YES(Zero<{t}>.val() == 0); YES(One<{t}>.val() == 1);"))
        if t in R:
            ls.append(("Y", f"YES(Thousand<{t}>.val() == 1000); YES(Million<{t}>.val() == 1000000); YES(Billion<{t}>.val() == {t}(1000000000));"
                       if " " not in t else f"YES(Thousand<{t}>.val() == 1000); YES(Million<{t}>.val() == 1000000);"))
        ls.append(("Y", f"YES(NegOne<{t}>.val() == -1);") if t in SIGNED + F else ("N", f"(void)NegOne<{t}>;"))
    gs.append(G("constant expressions", ls))
    return gs
