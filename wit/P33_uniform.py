"""P33: every form an array can take is accepted by every operation defined for arrays of its dimension and element type."""
import re

from wit import G

VAL = {"double": "1._sd", "int": "1_si", "bool": "true_sb", "long": "1_sl", "float": "1._sf", "float128": "Strict128{}"}
DECLS = """
#include <vector>
template<class A> constexpr void use_(A&& a_) { (void)a_; }
"""


def kinds1(t):
    a, m, v = f"L_<Array1D<{t}>>()", f"L_<Array2D<{t}>>()", VAL[t]
    c, cm = a.replace("L_", "C_"), m.replace("L_", "C_")
    k = {"Array1D": a, "const Array1D": c, "aligned Array1D": f"L_<Array1D<{t}, Aligned>>()", "FixedArray1D": f"L_<FixedArray1D<{t}, 4>>()",
         "aligned FixedArray1D": f"C_<FixedArray1D<{t}, 4, Aligned>>()"}
    for s in ("place::all", "place::even", "place::reverse", "place::complement{1}", "{0, 1}", "std::vector<ImplicitInt>{0}", "seqN(0, 1)",
              "seq(0, 1)"):
        k[f"A({s})"] = f"{a}({s})"
        k[f"const A({s})"] = f"{c}({s})"
    k["A({0, 1})(reverse)"] = a + "({0, 1})(place::reverse)"
    k["A(even)({0})"] = a + "(place::even)({0})"
    k["F({0, 1})"] = f"L_<FixedArray1D<{t}, 4>>()" + "({0, 1})"
    k["view1D"] = a + ".view1D()"
    k["M.view1D"], k["M(s, s).view1D"] = m + ".view1D()", cm + "({0, 1}, place::all).view1D()"
    k["row"], k["const row"], k["col"], k["diag"] = m + ".row(0)", cm + ".row(last)", m + ".col(0)", cm + ".diag()"
    k["row({0})"] = m + ".row(0)({0})"
    k["row of slice"] = m + "({0, 1}, {0, 1}).row(0)"
    k["row of fixed"] = f"L_<FixedArray2D<{t}, 2, 3>>().row(0)"
    k["generate"] = f"generate({a}, [](auto x_) {{ return x_; }})"
    k["generate of list"] = f"generate({a}({{0, 1}}), [](auto x_) {{ return x_; }})"
    k["generate2"] = f"generate({a}, {c}, [](auto x_, auto) {{ return x_; }})"
    k["const1D"] = f"const1D(2, {v})"
    k["array_cast"] = f"array_cast<{t}>(L_<Array1D<{'float' if t != 'float' else 'double'}>>())"
    k["merge"], k["merge list"], k["merge value"] = f"merge({a}, {c})", f"merge({a}({{0}}), {c}({{1}}))", f"merge({v}, {a}, {v})" if 0 else f"merge({a}, {v})"
    k["exclude"], k["exclude last"] = f"exclude({a}, 0)", f"exclude({a}({{0, 1}}), last)"
    if t != "float128":
        k["attach"], k["const attach"] = f"attach1D(L_<{t}*>(), 2)", f"attach1D(L_<const {t}*>(), 2)"
    k["row of transpose"] = f"transpose({m}).row(0)"
    k["view1D of transpose"] = f"transpose({m}).view1D()"
    if t != "bool":
        k["-A"], k["A + A"], k["A + x"], k["-A({0, 1})"] = f"-{a}", f"{a} + {c}", f"{a} + {v}", f"-{a}({{0, 1}})"
        k["A({0}) * A({1})"] = f"{a}({{0}}) * {c}({{1}})"
        k["two_prod"] = f"two_prod({a}, {c}).first" if t != "int" else f"({a} * {c})"
        k["sequence"] = f"sequence<{t}>(3)"
        k["e_unit"] = f"e_unit<{t}>(0, 3)"
        k["row_reduce"] = f"row_reduce({m}, [](auto const& r_) {{ return sum(r_); }})"
        k["col_reduce"] = f"col_reduce({m}({{0, 1}}, place::all), [](auto const& r_) {{ return sum(r_); }})"
        k["row of expr"], k["col of expr"], k["diag of expr"] = f"(-{m}).row(0)", f"({m} + {cm}).col(last)", f"(-{m}).diag()"
        k["slice of expr"], k["list of expr"] = f"(-{a})(place::even)", f"({a} + {v})({{0, 1}})"
        k["view1D of expr"] = f"(-{m}).view1D()"
        k["matvec"] = f"matvec_prod({m}, {a})"
    else:
        k["!A"], k["A && A"], k["A || x"] = f"!{a}", f"{a} && {c}", f"{a} || {v}"
        k["A < A"] = f"generate(L_<Array1D<double>>(), C_<Array1D<double>>(), [](auto x_, auto y_) {{ return x_ < y_; }})"
    if t in ("double", "float128", "float"):
        k["linspace"] = f"linspace(3, {v}, {v})"
        k["sqrt"] = f"sqrt({a}({{0, 1}}))"
    if t == "long":
        k["irange"], k["irange(A)"] = "irange(3)", f"irange({a})"
    return k


def kinds2(t):
    a, v = f"L_<Array2D<{t}>>()", VAL[t]
    c, b = a.replace("L_", "C_"), f"L_<Array1D<{t}>>()"
    k = {"Array2D": a, "const Array2D": c, "aligned Array2D": f"L_<Array2D<{t}, Aligned>>()", "FixedArray2D": f"L_<FixedArray2D<{t}, 2, 3>>()",
         "aligned FixedArray2D": f"C_<FixedArray2D<{t}, 2, 3, Aligned>>()"}
    for s in ("place::all, place::all", "seqN(0, 1), place::reverse", "{0, 1}, {0, 1}", "place::even, {0}", "{0}, place::odd",
              "std::vector<ImplicitInt>{0}, std::vector<ImplicitInt>{0}"):
        k[f"A({s})"] = f"{a}({s})"
        k[f"const A({s})"] = f"{c}({s})"
    for s in ("rows({0, 1})", "cols({0, 1})", "rows(place::even)", "cols(seqN(0, 1))", "block(0, 0, 1, 1)", "blockN(0, 0, 1, 1)", "view2D(2, 2)"):
        k[f"A.{s}"] = f"{a}.{s}"
        k[f"const A.{s}"] = f"{c}.{s}"
    k["F({0}, {0})"] = f"L_<FixedArray2D<{t}, 2, 3>>()({{0}}, {{0}})"
    k["slice of slice"] = a + "({0, 1}, {0, 1})({0}, place::reverse)"
    k["1D view2D"], k["list view2D"] = b + ".view2D(2, 2)", b + "({0, 1}).view2D(1, 2)"
    k["generate"] = f"generate({a}, [](auto x_) {{ return x_; }})"
    k["generate of list"] = f"generate({a}({{0, 1}}, place::all), [](auto x_) {{ return x_; }})"
    k["const2D"] = f"const2D(2, 2, {v})"
    k["array_cast"] = f"array_cast<{t}>(L_<Array2D<{'float' if t != 'float' else 'double'}>>())"
    k["merge_horizontal"], k["merge_vertical"] = f"merge_horizontal({a}, {c})", f"merge_vertical({a}({{0}}, place::all), {c}.rows({{0}}))"
    k["transpose"], k["transpose of list"] = f"transpose({a})", f"transpose({c}({{0, 1}}, {{0}}))"
    k["row_broadcast"], k["col_broadcast"] = f"row_broadcast({b})", f"col_broadcast({b}({{0, 1}}))"
    if t != "float128":
        k["attach"], k["const attach"] = f"attach2D(L_<{t}*>(), 2, 2)", f"attach2D(L_<const {t}*>(), 2, 2)"
    if t != "bool":
        k["-A"], k["A + A"], k["A * x"] = f"-{a}", f"{a} + {c}", f"{a} * {v}"
        k["-A({0}, {0})"] = f"-{a}({{0}}, {{0}})"
        k["identity"] = f"identity<{t}>(3)"
        k["slice of expr"], k["block of expr"] = f"(-{a})(place::even, {{0}})", f"({a} + {c}).block(0, 0, 1, 1)"
        k["view2D of expr"] = f"(-{b}).view2D(2, 2)"
        k["tensor_prod"] = f"tensor_prod({b}, {b}({{0, 1}}))"
    else:
        k["!A"], k["A && A"] = f"!{a}", f"{a} && {c}"
    return k


def ops(t, d):
    """operations on an array form, over § (used as written) or s_ (bound to a name)"""
    v, o, i = VAL[t], f"Array{d}D<{t}>", "0" if d == 1 else "0, 0"
    sz = "4" if d == 1 else "2, 3"
    r = [f"{o} x_ = §;", f"{o} x_(§);", f"Array{d}D<{t}, Aligned> x_ = §;", f"FixedArray{d}D<{t}, {sz}> x_ = §;", f"{o} x_; x_ = §;",
         f"{o} x_; x_.resize_and_assign(§);", f"FixedArray{d}D<{t}, {sz}> x_; x_ = §;", f"auto x_ = (§).eval(); TYPE({o}, x_);" if 0 else f"auto x_ = (§).eval(); x_ = {v};",
         f"auto s_ = L_<{o}>()" + ("(place::even)" if d == 1 else "(place::even, place::odd)") + "; s_ = §;",
         f"auto s_ = L_<{o}>()" + ("({0, 1})" if d == 1 else "({0, 1}, {0})") + "; s_ = §;",
         f"(void)(§).un(0);", f"(void)(§).un({i});", f"(void)(§).at({i});", f"(void)(§)" + ("[0];" if d == 1 else "(0, 0);"),
         f"(void)(§)" + ("[last];" if d == 1 else "(last, 0);"), "(void)(§).size(); (void)(§).empty(); (void)(§).size_m1(); (void)(§).dimension();",
         "for(auto const& x_ : s_) (void)x_;", "(void)(s_.end() - s_.begin()); (void)(*s_.rbegin()); (void)(s_.cbegin() < s_.cend()); (void)*s_.crbegin(); (void)(s_.begin()[0]);",
         "std::ostringstream os_; os_ << (§);", "print(§); printn(§);", "print(s_, \"x\"); printn(s_, \"x\"); print_to_file(\"f\", s_, \"x\"); print_to_file(\"f\", s_);", "print(§, §);",
         "(void)generate(s_, [](auto x_) { return x_; }).un(0);", "(void)array_cast<double>(s_).un(0);", "(void)array_cast<float>(s_).un(0);" if t != "float128" else ";",
         f"auto e_ = array_cast<bool>(s_); Array{d}D<bool> x_ = e_;" if t != "float128" else ";",
         f"(void)none_of(§, {v}); (void)any_of(§, {v}); (void)all_of(§, {v});", f"(void)none_of(§, Value{{{v}}}); (void)any_of(§, Value{{{v}}}); (void)all_of(§, Value{{{v}}});" if t != "bool" else ";",
         "auto f_ = [](auto) { return true_sb; }; (void)none_of(§, f_); (void)any_of(§, f_); (void)all_of(§, f_);",
         "auto f_ = [](auto, auto) { return true_sb; }; (void)spp::none_of(§, §, f_); (void)spp::any_of(§, §, f_); (void)spp::all_of(§, §, f_);",
         "for_each(s_, [](auto) {});", "(void)does_throw<std::exception>([&] {});" if 0 else ";",
         "(void)same_size(§, §);" if 1 else ";"]
    if d == 1:
        r += ["Array1D<%s> x_(s_.begin(), s_.end());" % t, "Array1D<%s> x_(s_.cbegin(), s_.cend());" % t, "Array1D<%s> x_(s_.rbegin(), s_.rend());" % t,
              "FixedArray1D<%s, 4> x_(s_.begin(), s_.end());" % t, "FixedArray1D<%s, 4> x_(s_.crbegin(), s_.crend());" % t,
              f"L_<{o}>().insert(0, §);", f"L_<{o}>().insert_front(§);", f"L_<{o}>().insert_back(§);", f"L_<{o}>().insert(Pos{{0}}, §);",
              f"L_<Array2D<{t}>>().insert_row(0, §);", f"L_<Array2D<{t}>>().insert_col(0, §);", f"L_<Array2D<{t}>>().row(0) = §;", f"L_<Array2D<{t}>>().col(0) = §;",
              "(void)merge(s_, s_).un(0);", f"(void)merge({v}, s_).un(0);", f"(void)merge({v}, {v}, s_).un(0);", f"(void)merge(s_, {v}, {v}).un(0);", "(void)merge(s_, s_, s_).un(0);",
              "(void)exclude(s_, 0).un(0);", "(void)exclude(s_, 0, 1).un(0);", "(void)exclude(s_, Pos{0}, Count{1}).un(0);", "(void)exclude(s_, last).un(0);",
              "(void)irange(§).un(0); (void)irange_m1(§).un(0);", "(void)row_broadcast(s_).un(0, 0);", "(void)col_broadcast(s_).un(0, 0);"]
        r += [f"(void)s_({s}).un(0);" for s in ("place::all", "place::even", "place::odd", "place::reverse", "place::skipN(2)", "place::firstN(1)", "place::lastN(1)",
                                               "place::complement{1}", "seqN(0, 1)", "seq(0, 1)", "{0, 1}", "std::vector<ImplicitInt>{0}")]
        r += ["(void)s_.view1D().un(0);", "(void)s_.view2D(2, 2).un(0, 0);"]
    else:
        r += [f"L_<{o}>().insert_rows(0, §);", f"L_<{o}>().insert_cols(0, §);", "(void)(§).rows(); (void)(§).cols();", "(void)merge_horizontal(s_, s_).un(0, 0);",
              "(void)merge_vertical(s_, s_).un(0, 0);", "(void)merge_vertical(s_, s_, s_).un(0, 0);", "(void)transpose(s_).un(0, 0);", f"{o} x_ = transpose(s_);",
              "(void)irange_row(§).un(0); (void)irange_col(§).un(0); (void)irange_row_m1(§).un(0); (void)irange_col_m1(§).un(0);",
              "for(auto [i_, j_] : IndexRange2D(s_)) { (void)i_; (void)j_; }", "for(auto r_ : RowIt(s_)) (void)r_.un(0);", "for(auto r_ : ColIt(s_)) (void)r_.un(0);",
              "RowIt r_(s_); (void)r_.rbegin()[0]; (void)(r_.cend() - r_.cbegin()); (void)*r_.crbegin();",
              f"(void)row_reduce(s_, [](auto const& r_) {{ return r_.un(0); }}).un(0); (void)col_reduce(s_, [](auto const& r_) {{ return r_.un(0); }}).un(0);"]
        r += [f"(void)s_({s}).un(0, 0);" for s in ("place::all, place::all", "seqN(0, 1), place::reverse", "{0, 1}, {0, 1}", "place::even, {0}", "{0}, place::odd",
                                                  "std::vector<ImplicitInt>{0}, std::vector<ImplicitInt>{0}", "place::complement{0}, place::skipN(2)")]
        r += [f"(void)s_.{s}.un(0);" for s in ("row(0)", "row(last)", "col(0)", "col(last)", "diag()", "diag(1)", "view1D()")]
        r += [f"(void)s_.{s}.un(0, 0);" for s in ("rows(place::even)", "cols(place::all)", "rows({0})", "cols({0, 1})", "block(0, 0, 1, 1)", "block(0, 0, last, last)",
                                                 "blockN(0, 0, 1, 1)", "view2D(1, 1)")]
    if t != "bool":
        r += [f"{o} x_ = {u}s_;" for u in "+-"] + [f"{o} x_ = abs(s_);"]
        for op in "+-*/":
            r += [f"{o} x_ = s_ {op} {v};", f"{o} x_ = {v} {op} s_;", f"{o} x_ = s_ {op} s_;", f"{o} x_ = s_ {op} C_<{o}>();", f"L_<{o}>() {op}= §;"]
        r += [f"(void){f}(§); (void){f}(§, {v});" for f in ("sum", "prod", "mean", "min", "max", "norm_inf", "norm1", "norm1_scaled")] if t != "int" else \
             [f"(void){f}(§); (void){f}(§, {v});" for f in ("sum", "prod", "min", "max")]
        r += ["(void)min_index(§); (void)max_index(§);", "(void)all_finite(§); (void)has_inf(§); (void)has_nan(§);" if t != "int" else ";", "(void)blas_array(§);",
              "(void)has_zero(§); (void)all_zeros(§); (void)all_pos(§); (void)all_neg(§); (void)all_non_pos(§); (void)all_non_neg(§);",
              "(void)dot_prod(§, §);", f"(void)dot_prod(§, C_<{o}>());"]
        if d == 1:
            r += [f"(void)polynomial(§, {v});", f"auto x_ = in_open_range(s_, {v}, {v}); (void)x_.un(0);", f"auto x_ = in_closed_range(s_, Low{{{v}}}, High{{{v}}}); (void)x_.un(0);",
                  "auto x_ = in_cond_range(s_, [](auto) { return true_sb; }); (void)x_.un(0);", f"{o} x_ = matvec_prod(C_<Array2D<{t}>>(), s_);",
                  f"Array2D<{t}> x_ = tensor_prod(s_, s_);"]
        else:
            r += [f"Array1D<{t}> x_ = matvec_prod(s_, C_<Array1D<{t}>>());"]
    else:
        r += [f"{o} x_ = !s_;"] + [f"{o} x_ = s_ {op} s_;" for op in ("&&", "||", "^")] + [f"{o} x_ = s_ {op} {v};" for op in ("&&", "||", "^")]
    if t == "int":
        r += [f"{o} x_ = ~s_;"]
        for op in ("%", "<<", ">>", "&", "|", "^"):
            r += [f"{o} x_ = s_ {op} {v};", f"{o} x_ = {v} {op} s_;", f"{o} x_ = s_ {op} s_;", f"L_<{o}>() {op}= §;"]
    if t in ("double", "float", "float128"):
        r += [f"{o} x_ = {f}(s_);" for f in ("exp", "log", "log2", "log10", "sqrt", "cbrt", "sin", "cos", "tan", "inv")]
        r += [f"{o} x_ = pow(s_, {v});", f"{o} x_ = pow_int(s_, 2);", f"{o} x_ = fast_pow_int(s_, 2);", "auto p_ = two_prod(s_, s_); (void)p_.first.un(0); (void)p_.second.un(0);" if t != "float128" else ";",
              "(void)norm2(§); (void)norm2_scaled(§); (void)norm_lp(§, 2); (void)norm_lp_scaled(§, 2);",
              "auto i_ = array_cast<int>(s_); auto p_ = pow_prod(s_, i_); (void)p_.first.un(0); (void)p_.second.un(0);" if t != "float128" else ";"]
        if t != "float128":
            r += ["(void)stable_sum(§); (void)semi_stable_sum(§); (void)stable_prod(§); (void)stable_mean(§); (void)stable_norm1(§); (void)stable_norm1_scaled(§); (void)stable_norm2(§);",
                  "(void)stable_dot_prod(§, §); (void)semi_stable_dot_prod(§, §);"]
    return [x for x in r if x != ";"]


def groups(quad=False, flavour=""):
    gs = []
    for t in (["double", "int", "bool"] if not quad else ["float128"]):
        for d, ks in ((1, kinds1(t)), (2, kinds2(t))):
            os = ops(t, d)
            for k, e in ks.items():
                ls = []
                for o in os:
                    pre = f"auto{'&' if re.fullmatch(r'[LC]_<[^()]*>\(\)', e) else ''} s_ = {e}; " if "s_" in o and "§" not in o else ""
                    ls.append(("Y", pre + o.replace("§", e)))
                gs.append(G(f"{k} as a {d}D array of {t}", ls, decls=DECLS))
    return gs
