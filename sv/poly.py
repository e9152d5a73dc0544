"""Polynomial value numbering over the residual IR of an obligation.

Two integer or pointer values are congruent when their normal forms agree: a normal form is a
polynomial modulo 2^64 over leaves, where a leaf is an SSA value the normaliser does not look
through, or a pure operation identified by its opcode and the normal forms of its operands.
Used to discharge a FAIL point whose branch condition compares two congruent values.
"""
import re

M64 = 1 << 64
RE_DEFI = re.compile(r'^\s*(%[\w.$-]+|%"[^"]+") = (.*)$')
RE_VAL = r'(%[\w.$-]+|%"(?:[^"\\]|\\.)*"|@[\w.$-]+|@"(?:[^"\\]|\\.)*"|-?\d+|true|false|null|-?\d\.\d+e[+-]\d+|0x[0-9A-FKLHM]+|undef|poison)'


def strip(l):
    i = l.find(", !")
    return l if i < 0 else l[:i]


class Layout:
    """sizes and field offsets of the types of a textual IR module (x86-64 data layout)"""
    PRIM = {"i1": (1, 1), "i8": (1, 1), "i16": (2, 2), "i32": (4, 4), "i64": (8, 8), "ptr": (8, 8), "float": (4, 4),
            "double": (8, 8), "x86_fp80": (16, 16), "i128": (16, 16), "fp128": (16, 16)}

    def __init__(self, text=""):
        self.named = dict(re.findall(r'^(%[\w.$-]+|%"[^"]+") = type (.*)$', text, re.M))
        self.memo = {}

    def split(self, body):
        out, depth, cur, quote = [], 0, "", False
        for c in body:
            quote ^= c == '"'
            if not quote:
                depth += c in "[{<("
                depth -= c in "]}>)"
                if c == "," and depth == 0:
                    out.append(cur.strip())
                    cur = ""
                    continue
            cur += c
        return out + [cur.strip()] if cur.strip() else out

    def parts(self, ty):
        """("array", element) or ("struct", fields, packed) or None"""
        ty = self.named.get(ty, ty)
        m = re.match(r'\[\d+ x (.*)\]$', ty)
        if m:
            return "array", m.group(1)
        m = re.match(r'(<?)\{(.*)\}>?$', ty)
        if m:
            return "struct", self.split(m.group(2)), bool(m.group(1))
        return None

    def size(self, ty):
        """(size, alignment) or None"""
        if ty in self.PRIM:
            return self.PRIM[ty]
        if ty in self.memo:
            return self.memo[ty]
        self.memo[ty] = None
        p = self.parts(ty)
        r = None
        if p and p[0] == "array":
            e = self.size(p[1])
            n = int(re.match(r'\[(\d+) x ', self.named.get(ty, ty)).group(1))
            r = (e[0] * n, e[1]) if e else None
        elif p:
            o = self.fields(ty)
            r = (o[-1], o[-2]) if o else None
        self.memo[ty] = r
        return r

    def fields(self, ty):
        """offsets of the fields, then the alignment, then the size"""
        _, fs, packed = self.parts(ty)
        o, al, offs = 0, 1, []
        for x in fs:
            z = self.size(x)
            if z is None:
                return None
            a = 1 if packed else z[1]
            o = (o + a - 1) // a * a
            offs.append(o)
            o += z[0]
            al = max(al, a)
        return offs + [al, (o + al - 1) // al * al]


class Fn:
    QUIET = re.compile(r'@(ob_live|ob_fail|strictpp_check_failed|llvm\.assume|llvm\.lifetime\.\w+|llvm\.fabs|llvm\.sqrt|llvm\.[us](?:min|max))\b')

    def __init__(self, lines, layout=None):
        self.layout = layout or Layout()
        self.defs, self.block_of, self.blocks, self.preds, self.order = {}, {}, {}, {}, []
        cur = None
        for l in lines:
            m = re.match(r'^([\w.$-]+|"[^"]+"):', l)
            if m and not l.startswith(" "):
                cur = m.group(1)
                self.blocks[cur] = []
                self.order.append(cur)
                continue
            if not l.strip() or l.strip().startswith(";"):
                continue
            if cur is None:
                cur = "<entry>"
                self.blocks[cur] = []
                self.order.append(cur)
            s = strip(l)
            m = re.match(r'\s*(%[\w.$-]+) = (?:tail )?call (?:noundef )?(i\d+) @llvm\.([us])(min|max)\.i\d+\(i\d+ (?:noundef )?' + RE_VAL
                         + r', i\d+ (?:noundef )?' + RE_VAL + r'\)', s)
            if m:                          # a minimum or maximum is a comparison and a choice
                v, ty, sg, mm, x, y = m.groups()
                c = f"{v}.cmp"
                self.defs[c] = (f"icmp {sg}{'lt' if mm == 'min' else 'gt'} {ty} {x}, {y}", cur)
                self.blocks[cur].append((f"  {c} = {self.defs[c][0]}", ""))
                s = f"  {v} = select i1 {c}, {ty} {x}, {ty} {y}"
            self.blocks[cur].append((s, l))
            m = RE_DEFI.match(s)
            if m:
                self.defs[m.group(1)] = (m.group(2), cur)
        for b, ins in self.blocks.items():
            if not ins:
                continue
            for t in re.findall(r'label %([\w.$-]+|"[^"]+")', ins[-1][0]):
                self.preds.setdefault(t, []).append(b)
        self.memo = {}
        self.busy = set()
        self.dead_edges = set()
        self.subst = {}                    # loop-header phi -> normal form (assumed / proved invariant)
        self.inn = {}
        self.base = {}                     # facts of the case distinction
        self.given = {}                    # i1 value -> truth value, in a case distinction
        self.frozen = not any(re.search(r'^\s*(?:%\S+ = )?(store|atomicrmw|cmpxchg|fence|invoke)\b', s)
                              or re.search(r'\bcall\b', s) and not self.QUIET.search(s)
                              for ins in self.blocks.values() for s, _ in ins)

    # -------- normal forms: dict {monomial(tuple of leaf keys sorted): coeff}
    def const(self, c):
        c %= M64
        return {(): c} if c else {}

    def add(self, a, b, k=1):
        r = dict(a)
        for m, c in b.items():
            v = (r.get(m, 0) + k * c) % M64
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def mul(self, a, b):
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                k = tuple(sorted(m + n, key=repr))
                v = (r.get(k, 0) + c * d) % M64
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        return r

    def leaf(self, *key):
        return {(key,): 1}

    def freeze(self, p):
        return tuple(sorted(p.items(), key=repr))

    def nf(self, v, depth=0):
        if re.fullmatch(r'-?\d+', v):
            return self.const(int(v))
        if v in ("null", "false"):
            return {}
        if v == "true":
            return self.const(1)
        if v not in self.defs or depth > 60:
            return self.leaf("v", v)
        if v in self.memo:
            return self.memo[v]
        if v in self.subst:
            r = self.subst[v]
            if isinstance(r, tuple):
                r = self.add(self.nf(r[0], depth + 1), r[1])
            self.memo[v] = r
            return r
        if v in self.busy:
            return self.leaf("v", v)
        self.busy.add(v)
        r = self.nf_def(v, self.defs[v][0], depth + 1)
        self.busy.discard(v)
        self.memo[v] = r
        return r

    def nf_def(self, v, d, depth):
        m = re.match(r'(add|sub|mul|shl)(?: nuw| nsw)* (i64|i32|i8|i16) ' + RE_VAL + ', ' + RE_VAL + '$', d)
        if m and m.group(2) == "i64":
            op, _, x, y = m.groups()
            a, b = self.nf(x, depth), self.nf(y, depth)
            if op == "add":
                return self.add(a, b)
            if op == "sub":
                return self.add(a, b, -1)
            if op == "mul":
                return self.mul(a, b)
            if set(b) <= {()}:
                return self.mul(a, self.const(1 << (b.get((), 0) % 64)))
            return self.leaf("shl", self.freeze(a), self.freeze(b))
        m = re.match(r'or disjoint i64 ' + RE_VAL + ', ' + RE_VAL + '$', d)
        if m:
            return self.add(self.nf(m.group(1), depth), self.nf(m.group(2), depth))
        m = re.match(r'xor i64 ' + RE_VAL + ', -1$', d)
        if m:
            return self.add(self.const(-1), self.nf(m.group(1), depth), -1)
        m = re.match(r'getelementptr(?: inbounds)?(?: nuw| nusw)* (.+?), ptr ' + RE_VAL + r'((?:, i(?:32|64) ' + RE_VAL + ')+)$', d)
        if m:
            ty, base = m.group(1), m.group(2)
            idx = re.findall(r'i(?:32|64) ' + RE_VAL, m.group(3))
            r = self.nf(base, depth)
            sz = self.layout.size(ty)
            scale = self.const(sz[0]) if sz else self.leaf("sizeof", ty)
            r = self.add(r, self.mul(self.nf(idx[0], depth), scale))
            t, q = ty, r                   # the offset inside the element, when the layout of every part is known
            for k, i in enumerate(idx[1:]):
                p = self.layout.parts(t)
                if p and p[0] == "array" and self.layout.size(p[1]):
                    t = p[1]
                    q = self.add(q, self.mul(self.nf(i, depth), self.const(self.layout.size(t)[0])))
                elif p and p[0] == "struct" and i.isdigit() and self.layout.fields(t):
                    q = self.add(q, self.const(self.layout.fields(t)[int(i)]))
                    t = p[1][int(i)]
                else:
                    break
            else:
                return q
            if len(idx) > 1:
                rest = tuple(self.freeze(self.nf(i, depth)) for i in idx[1:])
                r = self.add(r, self.leaf("field", ty, rest))
            return r
        m = re.match(r'(ptrtoint ptr|inttoptr i64|freeze i64|freeze ptr) ' + RE_VAL + '(?: to (?:i64|ptr))?$', d)
        if m:
            return self.nf(m.group(2), depth)
        m = re.match(r'(sdiv|udiv|srem|urem|and|or|xor|lshr|ashr|add|sub|mul|shl|fadd|fsub|fmul|fdiv|frem)((?: nuw| nsw| exact| disjoint)*) (\S+) '
                     + RE_VAL + ', ' + RE_VAL + '$', d)
        if m:
            a, b = self.freeze(self.nf(m.group(4), depth)), self.freeze(self.nf(m.group(5), depth))
            if m.group(1) in ("xor", "sub") and a == b or m.group(1) in ("and", "mul") and (not a or not b):
                return {}
            return self.leaf(m.group(1), m.group(3), a, b)
        m = re.match(r'load (i64|double|i32|float|ptr), ptr ' + RE_VAL + ', align', d)
        if m and self.frozen:               # nothing in the function writes memory: a load is a function of its address
            return self.leaf("ld", {"i64": 8, "double": 8, "ptr": 8}.get(m.group(1), 4), self.freeze(self.nf(m.group(2), depth)))
        m = re.match(r'bitcast (double|i64|float|i32) ' + RE_VAL + r' to (?:double|i64|float|i32)$', d)
        if m and m.group(2) in self.defs:
            return self.nf(m.group(2), depth)
        m = re.match(r'zext(?: nneg)? i1 ' + RE_VAL + r' to (\S+)$', d)
        if m and self.given:
            t = self.truth(m.group(1), None, depth)
            if t is not None:
                return self.const(1 if t else 0)
        m = re.match(r'(sext|zext|trunc|sitofp|uitofp|fptosi|fptoui|fpext|fptrunc|bitcast)(?: nneg| nuw| nsw)* (\S+) ' + RE_VAL + r' to (\S+)$', d)
        if m:
            return self.leaf(m.group(1), m.group(2), self.freeze(self.nf(m.group(3), depth)), m.group(4))
        m = re.match(r'fneg (\S+) ' + RE_VAL + '$', d)
        if m:
            return self.leaf("fneg", m.group(1), self.freeze(self.nf(m.group(2), depth)))
        m = re.match(r'(icmp|fcmp) (\w+) (\S+) ' + RE_VAL + ', ' + RE_VAL + '$', d)
        if m:
            a, b = self.nf(m.group(4), depth), self.nf(m.group(5), depth)
            return self.leaf(m.group(1), m.group(2), m.group(3), self.freeze(a), self.freeze(b))
        m = re.match(r'select i1 ' + RE_VAL + r', (\S+) ' + RE_VAL + r', (\S+) ' + RE_VAL + '$', d)
        if m:
            ps = [self.freeze(self.nf(m.group(i), depth)) for i in (1, 3, 5)]
            if ps[1] == ps[2]:
                return self.nf(m.group(3), depth)
            if self.subst or self.given:
                t = self.truth(m.group(1), None, depth)
                if t is not None:
                    return self.nf(m.group(3 if t else 5), depth)
            return self.leaf("select", *ps)
        if d.startswith("phi"):
            w = self.phi_of(self.defs[v])
            if w is not None and w != v:
                return self.nf(w, depth)
        return self.leaf("v", v)

    # -------- conditions
    # The four relations two operands can be in: less, equal, greater, unordered (floats only). A comparison
    # holds for a subset of them; a fact about a pair of operands is the set of relations still possible.
    FREL = {"oeq": "E", "ogt": "G", "oge": "GE", "olt": "L", "ole": "LE", "one": "LG", "ord": "LEG",
            "ueq": "UE", "ugt": "UG", "uge": "UGE", "ult": "UL", "ule": "ULE", "une": "ULG", "uno": "U"}
    IREL = {"eq": "E", "ne": "LG", "sgt": "G", "sge": "GE", "slt": "L", "sle": "LE",
            "ugt": "G", "uge": "GE", "ult": "L", "ule": "LE"}
    SWAP = str.maketrans("LG", "GL")

    def resolve(self, v, facts, depth=0):
        """look through selects whose condition is decided by the facts"""
        while v in self.defs and depth < 20:
            if v in self.subst and not isinstance(self.subst[v], tuple):
                p = self.subst[v].get((), 0)
                return ("true" if p else "false") if self.defs[v][0].startswith("phi i1 ") else str(p)
            m = re.match(r'select i1 ' + RE_VAL + r', (\S+) ' + RE_VAL + r', (\S+) ' + RE_VAL + '$', self.defs[v][0])
            if not m:
                w = self.phi_of(self.defs[v])
                if w is None:
                    break
                v = w
                depth += 1
                continue
            t = self.truth(m.group(1), facts, depth + 1)
            if t is None:
                break
            v = m.group(3 if t else 5)
            depth += 1
        return v

    def compare(self, c, facts, depth=0):
        """(key of the operand pair, relations for which the comparison holds, all relations) or None"""
        m = re.match(r'(icmp|fcmp)(?: (?:nnan|ninf|nsz|arcp|contract|afn|reassoc|fast|samesign))* (\w+) (\S+) ' + RE_VAL + ', '
                     + RE_VAL + '$', self.defs[c][0])
        if not m:
            return None
        kind, op, ty, x, y = m.groups()
        x, y = self.resolve(x, facts, depth), self.resolve(y, facts, depth)
        fx, fy = self.freeze(self.nf(x)), self.freeze(self.nf(y))
        if kind == "fcmp":
            fx, fy = ("f", x) if x not in self.defs else fx, ("f", y) if y not in self.defs else fy
            fam, rel, full = "f", set(self.FREL.get(op, "LEGU")), set("LEGU")
            if op not in self.FREL:
                return None
        else:
            fam = "s" if op[0] == "s" else "u" if op[0] == "u" else "e"
            rel, full = set(self.IREL[op]), set("LEG")
        flip = repr(fx) > repr(fy)
        if flip:
            fx, fy = fy, fx
            rel = {r.translate(self.SWAP) for r in rel}
        return (fam, ty, fx, fy), rel, full

    def truth(self, c, facts=None, depth=0):
        """True / False when the i1 value is decided by congruence or by the facts, else None"""
        facts = facts or self.base
        c = self.resolve(c, facts, depth) if depth < 20 else c
        if c in ("true", "false"):
            return c == "true"
        if c not in self.defs or depth > 20:
            return None
        if ("b", c) in facts:
            return facts["b", c]
        if c in self.given:
            return self.given[c]
        d = self.defs[c][0]
        m = re.match(r'icmp (\w+) (\S+) ' + RE_VAL + ', ' + RE_VAL + '$', d)
        if m and m.group(2) in ("i64", "ptr"):
            op, ty, x, y = m.groups()
            p = self.add(self.nf(self.resolve(x, facts, depth)), self.nf(self.resolve(y, facts, depth)), -1)
            if not p:
                return op in ("eq", "sge", "sle", "uge", "ule")
            if set(p) == {()} and op in ("eq", "ne"):
                return op == "ne"
            if op in ("eq", "ne"):
                e = facts.get(("p", self.sign(p)))
                if e is not None:
                    return e == (op == "eq")
            if set(p) == {()} and op[0] == "s":
                k = p[()] if p[()] < M64 // 2 else p[()] - M64          # x = y + k
                if k < 0 and self.no_wrap(x, y, -k, c) or k > 0 and self.no_wrap(y, x, k, c):
                    return (op in ("slt", "sle")) == (k < 0)
        t = self.compare(c, facts, depth + 1)
        if t:
            (fam, ty, fx, fy), rel, full = t
            poss = set(full)
            for g in ((fam,) if fam == "f" else (fam, "e") if fam != "e" else ("e", "s", "u")):
                k = facts.get((g, ty, fx, fy))
                if k is None:
                    continue
                if g == fam:
                    poss &= k
                else:                      # across signed / unsigned only equality carries over
                    if "E" not in k:
                        poss -= {"E"}
                    elif k == {"E"}:
                        poss &= {"E"}
            if fx == fy and fam == "f":
                poss &= set("EU")
            if fx == fy and fam != "f":
                poss &= {"E"}
            if fam == "f" and "U" in poss and all(self.ordered(f, facts) for f in (fx, fy)):
                poss -= {"U"}
            if poss <= rel:
                return True
            if not poss & rel:
                return False
            return None
        m = re.match(r'(and|or) i1 ' + RE_VAL + ', ' + RE_VAL + '$', d)
        if not m:
            m2 = re.match(r'select i1 ' + RE_VAL + r', i1 ' + RE_VAL + r', i1 ' + RE_VAL + '$', d)
            if m2:
                a = self.truth(m2.group(1), facts, depth + 1)
                if a is not None:
                    return self.truth(m2.group(2 if a else 3), facts, depth + 1)
                x, y = self.truth(m2.group(2), facts, depth + 1), self.truth(m2.group(3), facts, depth + 1)
                return x if x == y else None
            m3 = re.match(r'xor i1 ' + RE_VAL + ', true$', d)
            if m3:
                a = self.truth(m3.group(1), facts, depth + 1)
                return None if a is None else not a
            m4 = re.match(r'(?:xor|icmp (eq|ne)) i1 ' + RE_VAL + ', ' + RE_VAL + '$', d)
            if m4:
                a, b = m4.group(2), m4.group(3)
                x, y = self.truth(a, facts, depth + 1), self.truth(b, facts, depth + 1)
                differ = None
                if x is not None and y is not None:
                    differ = x != y
                elif x is None and y is None:
                    ta, tb = (self.compare(v, facts, depth + 1) if v in self.defs else None for v in (a, b))
                    if ta and tb and ta[0] == tb[0]:
                        poss = facts.get(ta[0], ta[2])
                        differ = False if poss & ta[1] == poss & tb[1] else \
                            True if (poss - ta[1]) == poss & tb[1] else None
                return differ if differ is None or m4.group(1) != "eq" else not differ
            return None
        a, b = self.truth(m.group(2), facts, depth + 1), self.truth(m.group(3), facts, depth + 1)
        if m.group(1) == "and":
            return False if a is False or b is False else (True if a and b else None)
        return True if a or b else (False if a is False and b is False else None)

    def sign(self, p):
        """p up to sign, as a key"""
        a, b = self.freeze(p), self.freeze(self.add({}, p, -1))
        return min(a, b, key=repr)

    def no_wrap(self, x, y, k, c):
        """some addition x + k' (k' >= k > 0) next to the comparison c, or computing y, is declared not to overflow"""
        blk = self.defs[c][1]
        fx = self.freeze(self.nf(x))
        cand = [(self.defs[y][0], blk)] if y in self.defs else []
        cand += [(d, b) for d, b in self.defs.values() if b == blk]
        for d, b in cand:
            m = re.match(r'add(?: nuw)? nsw i64 ' + RE_VAL + r', (\d+)$', d)
            if m and int(m.group(2)) >= k and self.freeze(self.nf(m.group(1))) == fx:
                return True
        return False

    # -------- loop invariants: relations between the phis of a loop header, inferred by refining an optimistic guess
    def phis(self, b):
        r = []
        for s, _ in self.blocks[b]:
            m = re.match(r'\s*(%[\w.$-]+|%"[^"]+") = phi (?:(?:nnan|ninf|nsz|fast|contract|afn|arcp|reassoc) )*(\S+) (\[.*)$', s)
            if not m:
                break
            inc = re.findall(r'\[ ' + RE_VAL + r', %([\w.$-]+|"[^"]+") \]', m.group(3))
            if len(inc) == len(re.findall(r'\[ ', m.group(3))):
                r.append((m.group(1), m.group(2), inc))
        return r

    def reach(self, a):
        seen, todo = set(), [a]
        while todo:
            for t in re.findall(r'label %([\w.$-]+|"[^"]+")', self.blocks[todo.pop()][-1][0]):
                if t not in seen and self.blocks.get(t):
                    seen.add(t)
                    todo.append(t)
        return seen

    def back_edges(self):
        """header -> latches, by depth-first search; None when the graph is irreducible (an entry that bypasses a header)"""
        dom = self.dominators()
        res = {}
        for b, ps in self.preds.items():
            if b not in dom:
                continue
            l = {p for p in ps if p in dom and b in dom[p]}
            if l:
                res[b] = l
        return res

    def dominators(self):
        entry = self.order[0]
        live = [b for b in self.order if b == entry or b in self.reach(entry)]
        dom = {b: set(live) for b in live}
        dom[entry] = {entry}
        ch = True
        while ch:
            ch = False
            for b in live:
                if b == entry:
                    continue
                ps = [dom[p] for p in self.preds.get(b, []) if p in dom]
                new = (set.intersection(*ps) if ps else set()) | {b}
                if new != dom[b]:
                    dom[b] = new
                    ch = True
        return dom

    def value(self, v, ty, facts):
        """normal form of v on an edge with the given facts"""
        v = self.resolve(v, facts)
        if ty == "i1":
            t = self.truth(v, facts)
            if t is not None:
                return self.const(1 if t else 0)
        return self.nf(v)

    def invariants(self):
        """Phis of a loop header that keep their constant start value, and classes of phis with a constant difference
        (integers, pointers) or equal (others). Checked on every live back edge under the assumption of all of them."""
        loops = self.back_edges()
        if not any(self.phis(h) for h in loops):
            return
        base = set(self.dead_edges)
        moved = set()                       # phis known not to keep their start value
        for _ in range(30):
            fixed, classes = self.guess(loops, moved)
            if not fixed and not classes:
                break
            for _ in range(40):
                self.assume(fixed, classes, base)
                bad = {v for v, (h, ty, inc, c) in fixed.items()
                       if any(p in loops[h] and (p, h) not in self.dead_edges
                              and self.value(x, ty, self.out(p, h)) != c for x, p in inc)}
                if bad:
                    break
                new, split = [], False
                for h, cls in classes:
                    lat = [p for p in loops[h] if (p, h) not in self.dead_edges]
                    parts = {}
                    for v, ty, inc, d in cls:
                        src = dict((p, x) for x, p in inc)
                        key = tuple(self.freeze(self.add(self.value(src[q], ty, self.out(q, h)), d, -1)) for q in lat)
                        parts.setdefault(key, []).append((v, ty, inc, d))
                    split |= len(parts) > 1
                    for g in parts.values():
                        if len(g) > 1:
                            new.append((h, [(v, ty, inc, self.add(d, g[0][3], -1)) for v, ty, inc, d in g]))
                if not split:
                    return
                classes = new
                if not fixed and not classes:
                    break
            if not bad:
                break
            moved |= bad
        self.subst, self.dead_edges, self.memo = {}, base, {}

    def guess(self, loops, moved):
        fixed, classes = {}, []             # class: (header, [(phi, ty, incoming, difference to the first)])
        self.subst, self.memo = {}, {}
        for h, latches in loops.items():
            groups = {}
            for v, ty, inc in self.phis(h):
                ent = {x for x, p in inc if p not in latches}
                if not ent:
                    continue
                lit = len(ent) == 1 and re.fullmatch(r"true|false|null|-?\d+", next(iter(ent)))
                if lit and v not in moved:
                    fixed[v] = (h, ty, inc, self.nf(next(iter(ent))))
                    continue
                groups.setdefault(ty, []).append((v, ty, inc, [self.nf(x) for x, p in inc if p not in latches]))
            for ty, g in groups.items():
                while g:
                    r = g[0]
                    cls, rest = [(r[0], ty, r[2], {})], []
                    for o in g[1:]:
                        ds = {self.freeze(self.add(a, b, -1)) for a, b in zip(o[3], r[3])}
                        if len(ds) == 1 and (ty in ("i64", "ptr") or ds == {()}):
                            cls.append((o[0], ty, o[2], dict(ds.pop())))
                        else:
                            rest.append(o)
                    if len(cls) > 1:
                        classes.append((h, cls))
                    g = rest
        return fixed, classes

    def assume(self, fixed, classes, base):
        self.subst = {v: c for v, (h, ty, inc, c) in fixed.items()}
        for h, cls in classes:
            for v, ty, inc, d in cls[1:]:
                self.subst[v] = (cls[0][0], d)
        self.dead_edges = set(base)
        self.memo = {}
        self.settle()

    def out(self, p, h):
        """facts on the edge p -> h"""
        facts = dict(self.inn.get(p, {}))
        t = self.blocks[p][-1][0]
        m = re.match(r'\s*br i1 ' + RE_VAL + r', label %([\w.$-]+|"[^"]+"), label %([\w.$-]+|"[^"]+")', t)
        if m and m.group(2) != m.group(3):
            self.learn(m.group(1), m.group(2) == h, facts)
        return facts

    @staticmethod
    def ordered(f, facts):
        """some fact excludes that the float is a NaN"""
        if f[0] == "f":                                        # a literal
            return bool(re.fullmatch(r'-?\d\.\d+e[+-]\d+|0x[0-9A-F]+', str(f[1]))) and "7FF" not in str(f[1]) \
                and "FFF" not in str(f[1])
        return any(k[0] == "f" and f in k[2:] and "U" not in v for k, v in facts.items() if k[0] == "f")

    def learn(self, c, val, facts, depth=0):
        """facts after the condition c is found to be val"""
        facts["b", c] = val
        c = self.resolve(c, facts)
        facts["b", c] = val
        if c not in self.defs or depth > 10:
            return
        t = self.compare(c, facts)
        if t:
            k, rel, full = t
            rel = rel if val else full - rel
            facts[k] = facts.get(k, frozenset(full)) & frozenset(rel)
            if k[0] != "f" and k[1] in ("i64", "ptr") and ("E" not in facts[k] or facts[k] == {"E"}):
                facts["p", self.sign(self.add(dict(k[2]), dict(k[3]), -1))] = facts[k] == {"E"}
            return
        d = self.defs[c][0]
        m = re.match(r'(and|or) i1 ' + RE_VAL + ', ' + RE_VAL + '$', d)
        if m and (m.group(1) == "and") == val:
            self.learn(m.group(2), val, facts, depth + 1)
            self.learn(m.group(3), val, facts, depth + 1)
        m = re.match(r'select i1 ' + RE_VAL + r', i1 ' + RE_VAL + r', i1 ' + RE_VAL + '$', d)
        if m:
            a, x, y = m.groups()
            if y == "false" and val:
                self.learn(a, True, facts, depth + 1), self.learn(x, True, facts, depth + 1)
            if x == "true" and not val:
                self.learn(a, False, facts, depth + 1), self.learn(y, False, facts, depth + 1)
        m = re.match(r'xor i1 ' + RE_VAL + ', true$', d)
        if m:
            self.learn(m.group(1), not val, facts, depth + 1)

    def phi_of(self, d):
        """the one value a phi can have, given the edges already proved dead, else None"""
        m = re.match(r'phi (?:(?:nnan|ninf|nsz|fast|contract|afn|arcp|reassoc) )*\S+ (\[.*)$', d[0])
        if not m:
            return None
        live = {x for x, b in re.findall(r'\[ ' + RE_VAL + r', %([\w.$-]+|"[^"]+") \]', m.group(1))
                if (b, d[1]) not in self.dead_edges}
        n = len(re.findall(r'\[ ', m.group(1)))
        if len(re.findall(r'\[ ' + RE_VAL + r', %(?:[\w.$-]+|"[^"]+") \]', m.group(1))) != n or len(live) != 1:
            return None
        return live.pop()

    def dead_blocks(self):
        """blocks unreachable once decided branches are resolved; each round may use the edges the last proved dead"""
        self.settle()
        self.invariants()
        dead = self.settle()
        fails = {b for b, ins in self.blocks.items() if any("@ob_fail" in t for t, _ in ins)}
        if fails - dead and len(self.blocks) < 200:
            self.budget = 400
            if self.cases(fails, 0):
                # each case makes the FAIL points unreachable; what else is dead stays as without cases
                return dead | fails
        return dead

    def cases(self, fails, depth):
        """FAIL points are unreachable in both cases of some condition that a select or a widening depends on"""
        if depth > 9 or self.budget <= 0:
            return False
        base, memo, inn = set(self.dead_edges), self.memo, self.inn
        dead = self.settle()
        res = None
        if not fails - dead:
            res = True
        else:
            c = self.undecided(dead)
            if c is None:
                res = False
        if res is None:
            res = True
            for t in (True, False):
                self.budget -= 1
                self.given[c] = t
                self.memo, self.dead_edges = {}, set(base)
                f = self.entry_facts()
                if f is not None and not self.cases(fails, depth + 1):
                    res = False
                del self.given[c]
                if not res:
                    break
        self.dead_edges, self.memo, self.inn, self.base = base, {}, inn, {}
        return res

    def undecided(self, dead):
        for b in self.order:
            if b in dead:
                continue
            for s, _ in self.blocks[b]:
                m = re.search(r'= (?:select i1|zext(?: nneg)? i1) ' + RE_VAL, s)
                if not m:
                    continue
                for c in self.atoms(m.group(1)):
                    if c in self.defs and not self.in_cycle(self.defs[c][1]) and c not in self.given \
                            and self.truth(c, self.inn.get(b)) is None:
                        return c
        return None

    def atoms(self, c, depth=0):
        """conditions an i1 value is composed of"""
        if c not in self.defs or depth > 6:
            return [c]
        d = self.defs[c][0]
        m = re.match(r'(?:and|or|xor) i1 ' + RE_VAL + ', ' + RE_VAL + '$', d) or \
            re.match(r'select i1 ' + RE_VAL + ', i1 ' + RE_VAL + ', i1 ' + RE_VAL + '$', d)
        if not m:
            return [c]
        return [x for v in m.groups() for x in self.atoms(v, depth + 1)]

    def entry_facts(self):
        """facts of the case distinction at the entry; None when they contradict each other"""
        facts = {}
        if any(self.in_cycle(b) for b in self.blocks):
            return facts
        for c, t in self.given.items():
            self.learn(c, t, facts)
        if any(not v for k, v in facts.items() if k[0] not in "bp"):
            return None
        return facts

    def settle(self):
        dead = set()
        for _ in range(6):
            dead, edges = self.round()
            if edges <= self.dead_edges:
                break
            self.dead_edges |= edges
            self.memo = {}
        return dead

    def round(self):
        """one conditional propagation of facts (optimistic in the edges, over SSA values)"""
        execd = set()
        entry = self.order[0]
        if self.given:
            self.base = {}
            self.base = self.entry_facts() or {}
            self.memo = {}
        inn, todo = {entry: dict(self.base)}, [entry]
        steps = 0
        while todo:
            b = todo.pop()
            steps += 1
            if steps > 40 * len(self.blocks) + 100:
                return set(), set()
            ins = self.blocks[b]
            if not ins:
                continue
            t = ins[-1][0]
            edges = [(x, None, None) for x in re.findall(r'label %([\w.$-]+|"[^"]+")', t)]
            m = re.match(r'\s*br i1 ' + RE_VAL + r', label %([\w.$-]+|"[^"]+"), label %([\w.$-]+|"[^"]+")', t)
            if m:
                v = self.truth(m.group(1), inn[b])
                edges = [(m.group(2), m.group(1), True), (m.group(3), m.group(1), False)]
                if m.group(2) == m.group(3):
                    edges = [(m.group(2), None, None)]
                elif v is not None:
                    edges = [e for e in edges if e[2] == v]
            edges = [e for e in edges if (b, e[0]) not in self.dead_edges]
            for x, c, val in edges:
                execd.add((b, x))
                facts = dict(inn[b])
                if c is not None:
                    self.learn(c, val, facts)
                # a fact is about SSA values: those redefined by x's block (a loop) are forgotten
                facts = self.forget(facts, x)
                if x not in inn:
                    inn[x] = facts
                    todo.append(x)
                else:
                    new = {}
                    for k, w in inn[x].items():
                        if k in facts:
                            if k[0] in "bp":
                                if w == facts[k]:
                                    new[k] = w
                            else:
                                new[k] = w | facts[k]
                    if new != inn[x]:
                        inn[x] = new
                        todo.append(x)
        self.inn = inn
        return set(self.blocks) - set(inn), {(p, b) for b, ps in self.preds.items() for p in ps} - execd

    def forget(self, facts, block):
        if not self.in_cycle(block):
            return facts
        return {}

    def in_cycle(self, block):
        if not hasattr(self, "cyc"):
            succ = {}
            for b, ins in self.blocks.items():
                succ[b] = re.findall(r'label %([\w.$-]+|"[^"]+")', ins[-1][0]) if ins else []
            self.cyc = set()
            for b in self.blocks:
                seen, todo = set(), list(succ[b])
                while todo:
                    x = todo.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    todo += succ.get(x, [])
                if b in seen:
                    self.cyc.add(b)
        return block in self.cyc


def live_lines(lines, layout=None):
    """the body without the blocks that congruence proves unreachable"""
    f = Fn(lines, layout)
    if not f.order:
        return lines
    dead = f.dead_blocks()
    if not dead:
        return lines
    return [raw for b in f.order if b not in dead for _, raw in f.blocks[b]]
