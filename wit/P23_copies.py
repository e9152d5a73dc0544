"""P23: a lazy random array draws new values on each read, so it cannot be copied, stored in another expression or moved about."""
from wit import G

MAKERS = ["random<T>(3)", "random<T>(Size{3})", "random<T>(2, 3)", "random<T>(Rows{2}, Cols{3})",
          "semi_random<T>(3)", "semi_random<T>(Size{3})", "semi_random<T>(2, 3)", "semi_random<T>(Rows{2}, Cols{3})"]
RANGED = ["f<T>(3, l, h)", "f<T>(Size{3}, Low{l}, High{h})", "f<T>(2, 3, l, h)", "f<T>(Rows{2}, Cols{3}, Low{l}, High{h})"]
NOT0 = [m.replace("random<", "random_not0<") for m in MAKERS]


def groups(quad=False, flavour=""):
    gs = []
    for t in ("bool", "int", "long", "unsigned", "unsigned long", "float", "double", "long double"):
        ms = list(MAKERS)
        if t != "bool":
            ms += NOT0 + [r.replace("f<", f + "<") for r in RANGED for f in ("random", "random_not0", "semi_random", "semi_random_not0")]
        for m in ms:
            d = 2 if "2, 3" in m or "Rows" in m else 1
            pre = f"using T = {t}; [[maybe_unused]] Strict<T> l{{}}, h{{}}; auto e = {m}; using E = decltype(e);"
            ls = [("Y", "TYPE(Strict<T>, e.un(0));"), ("Y", f"Array{d}D<T> a = {m};"), ("Y", f"Array{d}D<T> a; a = {m};"),
                  ("Y", f"Array{d}D<T> a = e;"), ("Y", f"Array{d}D<T> a; a = e;"), ("Y", "(void)e.size();"),
                  ("N", "auto f = e;"), ("N", "E f(e);"), ("N", "auto f = std::as_const(e);"), ("N", "auto f = std::move(e);"),
                  ("N", "e = e;"), ("Y", "YES(!std::is_copy_constructible_v<E>);"), ("Y", "YES(!std::is_copy_assignable_v<E>);"),
                  ("N", "e.un(0) = Strict<T>{};"), ("N", "auto f = e.view1D();") if d == 2 else ("N", "auto f = generate(e, e, [](auto x, auto) { return x; });"),
                  ("N", "auto f = generate(e, [](auto x) { return x; });")]
            if t != "bool":
                ls += [("N", f"Array{d}D<T> a; auto f = e + a;"), ("N", "auto f = e + Strict<T>{};"), ("N", f"Array{d}D<T> a; auto f = a * e;")]
            gs.append(G(f"{m} {t}", ls, pre=pre))
    return gs
