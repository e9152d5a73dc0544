"""P24: operations that only read their operands have no other effect."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "wit"))
import re

import P33_uniform as U

WRITES = re.compile(r"; s_ = §|L_<Array\dD<\w+>>\(\)(\.insert|\.row\(0\) =|\.col\(0\) =| ?[-+*/%&|^<>]+=)|print|ostringstream|two_prod|const r_|exclude_last")
KINDS1 = {"double": ["Array1D", "const Array1D", "aligned FixedArray1D", "A(place::even)", "const A({0, 1})", "A(seqN(0, 1))", "view1D", "M.view1D",
                     "row", "col", "diag", "generate", "merge", "exclude", "row of transpose", "-A", "A + A", "A + x", "linspace", "matvec",
                     "list of expr", "const attach", "array_cast"],
          "int": ["const Array1D", "FixedArray1D", "A({0, 1})", "A + A", "sequence"],
          "bool": ["Array1D", "const A(place::even)", "A && A", "!A"]}
KINDS2 = {"double": ["Array2D", "const Array2D", "aligned FixedArray2D", "A({0, 1}, {0, 1})", "const A(seqN(0, 1), place::reverse)", "A.cols(seqN(0, 1))",
                     "const A.block(0, 0, 1, 1)", "A.view2D(2, 2)", "generate", "transpose", "merge_vertical", "row_broadcast", "-A", "A + A", "A * x",
                     "tensor_prod", "identity", "block of expr"],
          "int": ["const Array2D", "FixedArray2D", "A + A", "transpose"],
          "bool": ["Array2D", "A && A"]}


D1, D2, F1 = "L_<Array1D<double>>()", "L_<Array2D<double>>()", "C_<FixedArray1D<double, 4>>()"
MISC = [f"(void)within_tol_abs({a}, {b}); (void)within_tol_rel({a}, {b}); (void)max_abs_error({a}, {b}); (void)max_rel_error({a}, {b}); "
        f"(void)equal({a}, {b}); (void)same_size({a}, {b});"
        for a, b in ((D1, F1), (D1, D1 + "(place::reverse)"), (F1, f"-{D1}"), (D2, f"transpose({D2})"), (f"{D2}.row(0)", f"{D2}.col(0)"))]
MISC += ["(void)within_tol_abs(L_<Strict<double>>(), 1._sd); (void)within_tol_rel(L_<Strict<double>>(), 1._sd); (void)abs_error(L_<Strict<double>>(), 1._sd); "
         "(void)rel_error(L_<Strict<double>>(), 1._sd);",
         f"(void)stable_polynomial({D1}, L_<Strict<double>>());", f"(void)polynomial({D1}({{0, 1}}), L_<Strict<double>>());",
         f"(void)stable_norm2_scaled({D1}); (void)stable_norm_lp({D1}, 3); (void)stable_norm_lp_scaled({D1}, 3);",
         "(void)semi_rands<int>(); (void)semi_rands(1_si, 9_si); (void)semi_rands<double>(Seed{Strict{3U}}); (void)semi_rands_not0<int>();",
         "Array1D<int> x_(4); semi_random(x_); semi_random_not0(x_, -3_si, 3_si);", "Array2D<double> x_(4, 4); semi_random(x_, 1._sd, 2._sd);",
         "Array1D<double> x_ = semi_random<double>(4); Array2D<int> y_ = semi_random_not0<int>(2, 3);",
         "Array1D<double> x_(4), y_(4); x_ = 2._sd; x_ += y_;",
         "Array1D<double> x_(4); Array1D<double> y_(3); x_.swap(y_); x_.resize(7); x_.insert(1, y_); x_.remove(0, 2); y_ = std::move(x_);",
         "Array2D<double> x_(4, 3); x_.insert_row(1, L_<Array1D<double>>()); x_.remove_cols(0, 1); x_.resize(3, 3); Array2D<double> y_ = x_;",
         f"FixedArray1D<double, 4> x_ = {F1}; x_ = {F1} + {F1}; x_ *= 2._sd; FixedArray2D<int, 2, 2> y_{{{{1_si, 2_si}}, {{3_si, 4_si}}}}; y_ += y_;",
         "Array1D<double> x_(4); x_ = {1._sd, 2._sd}; x_(place::even) = 3._sd; x_({0, 1}) += x_({1, 0}); for(auto& e_ : x_) e_ = 1._sd;",
         "Array2D<double> x_(4, 4); for(auto r_ : RowIt(x_)) r_ = 1._sd; x_.col(0) = x_.row(0); x_.diag() *= 2._sd; x_({0, 1}, {0}) = 1._sd;"]


def programs():
    out = [("helpers and own arrays", c) for c in MISC]
    for t in ("double", "int", "bool"):
        for d, ks, want in ((1, U.kinds1(t), KINDS1[t]), (2, U.kinds2(t), KINDS2[t])):
            for k in want:
                e = ks[k]
                for o in U.ops(t, d):
                    if WRITES.search(o):
                        continue
                    pre = f"auto{'&' if re.fullmatch(r'[LC]_<[^()]*>[(][)]', e) else ''} s_ = {e}; " if "s_" in o and "§" not in o else ""
                    out.append((f"{k} as a {d}D array of {t}", pre + o.replace("§", e)))
    return out
