"""Lists: a list holds exactly the entries put in and not taken out.

Relational abstract interpretation of the list container.  Every path of every function that
reads or writes a list's storage is followed with linear facts about its integers; loops are
summarised by invariants inferred from templates (assumed, checked on entry and on every back
edge, dropped when they fail, until none fails).  Symbols:
  NENT/NREM/P/REM1   the list's parameters on entry (valid entries, holes, size exponent, lower
                     bound of the first hole); case split NREM = 0 | NREM >= 1
  G(L,q,ver,x)       number of positions below x whose entry satisfies q (valid | equal to a
                     given argument) in a given version of the storage
  A, H               entries / holes gained since entry."""
import ir
import lin
from lin import con, sym, add, sub, scale, cst, isconst, mk
from ir import strip

TITLE = "lists"
RULES = {
    "pars": "the packed counters of a list are read back as they were written (entries, capacity exponent, holes, first hole)",
    "count": "when a function returns, the recorded numbers of entries and holes equal those on entry plus what was added and minus what was taken out on the path",
    "hole": "the recorded first hole is a lower bound of every hole, so that positional access may trust it",
    "bound": "every entry is read and written inside the used part of the storage; an appended entry goes to the first free position and the storage is large enough",
    "act": "an entry is returned, replaced or taken out at the i'th valid position, or where it equals the given entry; no entry is overlooked; the next position of an iteration is the one after the entry returned",
    "keep": "taking an entry out leaves the positions of the others as they are, so that iterations survive",
}
CONFIGS = ["default"]
CONFIGS_THOROUGH = ["default", "serial", "undef", "markers"]
MIN = {"pars": 4, "count": 14, "hole": 5, "bound": 30, "act": 25, "keep": 2}
EXPLAIN = ("Every function that touches the storage of a list is interpreted over linear integer facts; loop invariants are inferred "
           "from templates. An obligation is one path end (or one access) for which the rule was proved.")
ASSUME = ["positions and sizes passed to list functions are not negative",
          "entries put into lists are not NULL",
          "fewer than 2^26 entries"]
READERS = ("List_Contains", "List_Locate", "List_Entry", "List_Entry_Raw", "List_Next_Entry", "List_Num_Entries", "List_Size_Raw", "bsearch", "List_Entries")


class Broken(Exception):
    pass


class St:
    __slots__ = ("env", "cells", "ges", "eqs", "nes", "pf", "ver", "cap", "par", "A", "H", "holes", "pend", "ev",
                 "rep", "size", "rd", "nul", "inl", "left", "init", "stamp", "mem", "settled", "mode", "snap", "hcur", "icnt", "vc", "comp")

    def __init__(s):
        s.env = {}; s.cells = {}; s.ges = []; s.eqs = []; s.nes = []; s.pf = {}; s.ver = {}; s.cap = {}; s.par = {}
        s.A = {}; s.H = {}; s.holes = {}; s.pend = {}; s.ev = []; s.rep = False; s.size = {}; s.rd = {}; s.nul = {}
        s.inl = []; s.left = []; s.init = {}; s.stamp = None; s.mem = {}; s.settled = None
        s.mode = {}; s.snap = {}; s.hcur = {}; s.icnt = {}; s.vc = 0; s.comp = False

    def copy(s):
        n = St()
        n.env = dict(s.env); n.cells = dict(s.cells); n.ges = list(s.ges); n.eqs = list(s.eqs); n.nes = list(s.nes)
        n.pf = dict(s.pf); n.ver = dict(s.ver); n.cap = dict(s.cap); n.par = dict(s.par); n.A = dict(s.A); n.H = dict(s.H)
        n.holes = {k: list(v) for k, v in s.holes.items()}; n.pend = dict(s.pend); n.ev = list(s.ev); n.rep = s.rep
        n.size = dict(s.size); n.rd = dict(s.rd); n.nul = dict(s.nul); n.inl = list(s.inl); n.left = list(s.left)
        n.init = dict(s.init); n.stamp = s.stamp; n.mem = dict(s.mem); n.settled = s.settled
        n.mode = dict(s.mode); n.snap = dict(s.snap); n.hcur = dict(s.hcur); n.icnt = dict(s.icnt); n.vc = s.vc; n.comp = s.comp
        return n


def S(k, L):
    return sym((k, L))


def ntot0(L):
    return add(S("NENT", L), S("NREM", L))


def pow2(f):
    c = cst(f)
    base = sub(f, con(c))
    if not base:
        return con(1 << c) if 0 <= c < 40 else None
    if c < -40 or c > 40:
        return None
    if c < 0:
        return None
    return scale(sym(("pow", base)), 1 << c)


class Engine:
    def __init__(self, P, f):
        self.P, self.f = P, f
        self.loops = f.loops()
        self.shifts = any(x.op == "shl" and x.o[0][0] == "c" and x.b in body for body in self.loops.values() for b in body for x in f.blocks[b])
        self.cands = {}          # header -> dict key -> template or absent when dropped
        self.dropped = set()
        self.first = min(P.structs["List"])[1]
        self.fresh = 0
        self.lists = [k for k, t in enumerate(f.dargs) if t in ("List_ptr", "PList_ptr") or t == "List*"]
        self.ints = [k for k, t in enumerate(f.targs) if t in ("i32", "i64")]
        self.ptrs = [k for k, t in enumerate(f.targs) if t == "ptr" and k not in self.lists]
        self.msgs = {}
        self.rets = []
        self.steps = 0
        self._twice = {}
        self.final = False
        self.obs = set()
        self.cache = {}

    # ---------- reports (only counted in the final round)
    def ob(self, rule, where):
        if self.final:
            self.obs.add((rule, where))

    def bad(self, rule, x, key, msg):
        if self.final:
            self.msgs.setdefault((rule, key), (x.loc if x is not None else "%s:%d" % (self.f.file, self.f.line), msg))

    # ---------- facts
    def ghosts(self, st, goal):
        out = set()

        def scan(g):
            for s, c in g:
                if isinstance(s, tuple) and s and s[0] == "G":
                    out.add(s)
        for g in goal:
            scan(g)
        for g in st.ges:
            scan(g)
        for g in st.eqs:
            scan(g)
        return out

    def memo(self, st):
        """answers given for this state, dropped when a fact is added"""
        k = (len(st.ges), len(st.eqs), len(st.nes))
        if st.stamp != k:
            st.mem = {}
            st.stamp = k
        return st.mem

    def base_proves(self, st, goal):
        if isconst(goal):
            return cst(goal) >= 0
        self.settle(st)
        mem = self.memo(st)
        r = mem.get(goal)
        if r is None:
            r = lin.proves(st.ges, st.eqs, goal)
            mem[goal] = r
        return r

    def settle(self, st):
        """a form known to differ from 0 and to be on one side of it is at least 1 away"""
        if st.settled == (len(st.ges), len(st.eqs), len(st.nes)):
            return
        ch = True
        while ch and st.nes:
            ch = False
            for d in list(st.nes):
                for e in (d, scale(d, -1)):
                    if lin.proves(st.ges, st.eqs, e):
                        st.nes.remove(d)
                        st.ges.append(add(e, con(-1)))
                        ch = True
                        break
        st.settled = (len(st.ges), len(st.eqs), len(st.nes))

    def from_nes(self, st, ges, eqs, goal):
        out = []
        for d in st.nes:
            if lin.proves(ges, eqs, d):
                out.append(add(d, con(-1)))
            elif lin.proves(ges, eqs, scale(d, -1)):
                out.append(add(scale(d, -1), con(-1)))
        return out

    def axioms(self, st, goal):
        gs = self.ghosts(st, [goal])
        ges, eqs = [], []
        pw = sorted({s for g in st.ges + st.eqs + [goal] for s, _ in g if isinstance(s, tuple) and s[0] == "pow"}, key=repr)
        for i, g in enumerate(pw):
            for h in pw[i + 1:]:
                d = sub(g[1], h[1])
                if self.base_proves(st, d):
                    ges.append(sub(sym(g), sym(h)))
                if self.base_proves(st, scale(d, -1)):
                    ges.append(sub(sym(h), sym(g)))
        byk = {}
        for g in gs:
            byk.setdefault(g[1:4], set()).add(g)
        for (L, q, ver), lst in byk.items():
            z = ("G", L, q, ver, ())
            lst.add(z)
            eqs.append(sym(z))
            if q == "v" and ver == 0 and isinstance(L, int):
                t = ntot0(L)
                n = ("G", L, q, ver, t)
                lst.add(n)
                eqs.append(sub(sym(n), S("NENT", L)))
            lst = sorted(lst, key=repr)
            for g in lst:
                x = g[4]
                if q == "v" and ver == 0 and isinstance(L, int):
                    if st.nul.get(L):
                        ok = self.base_proves(st, x) and self.base_proves(st, sub(ntot0(L), x))
                    else:
                        ok = self.base_proves(st, x) and self.base_proves(st, sub(S("REM1", L), x))
                    if ok:
                        eqs.append(sub(sym(g), x))
                        continue
                ges.append(sym(g))
                if self.base_proves(st, x):
                    ges.append(sub(x, sym(g)))
            for i, g in enumerate(lst):
                for h in lst[i + 1:]:
                    d = sub(g[4], h[4])
                    if self.base_proves(st, d):
                        if self.base_proves(st, scale(d, -1)):
                            eqs.append(sub(sym(g), sym(h)))
                        else:
                            ges.append(sub(sym(g), sym(h)))
                            ges.append(sub(d, sub(sym(g), sym(h))))
                    elif self.base_proves(st, scale(d, -1)):
                        ges.append(sub(sym(h), sym(g)))
                        ges.append(sub(scale(d, -1), sub(sym(h), sym(g))))
        return ges, eqs

    def ge(self, st, goal):
        """goal >= 0 ?"""
        if goal is None:
            return False
        if self.base_proves(st, goal):
            return True
        mem = self.memo(st)
        k = ("g", goal)
        if k in mem:
            return mem[k]
        ax = self.axioms(st, goal)
        r = lin.proves(st.ges + ax[0], st.eqs + ax[1], goal)
        if not r and st.nes and ax[1]:
            ex = self.from_nes(st, st.ges + ax[0], st.eqs + ax[1], goal)
            if ex:
                r = lin.proves(st.ges + ax[0] + ex, st.eqs + ax[1], goal)
        self.memo(st)[k] = r
        return r

    def eq(self, st, a, b):
        d = sub(a, b)
        return self.ge(st, d) and self.ge(st, scale(d, -1))

    def ne(self, st, d):
        if isconst(d):
            return cst(d) != 0
        for e in st.nes:
            if e == d or e == scale(d, -1):
                return True
            if self.eq0(st, sub(e, d)):
                return True
        return self.ge(st, add(d, con(-1))) or self.ge(st, add(scale(d, -1), con(-1)))

    def eq0(self, st, d):
        if isconst(d):
            return cst(d) == 0
        return self.base_proves(st, d) and self.base_proves(st, scale(d, -1))

    def possible(self, st):
        ax = self.axioms(st, ())
        if lin.infeasible(st.ges + ax[0], st.eqs + ax[1]):
            return False
        ex = self.from_nes(st, st.ges + ax[0], st.eqs + ax[1], ())
        if ex and lin.infeasible(st.ges + ax[0] + ex, st.eqs + ax[1]):
            return False
        for d in st.nes:
            if isconst(d) and cst(d) == 0:
                return False
        return True

    # ---------- values
    def new(self, what):
        self.fresh += 1
        return sym(("u", what))

    def val(self, st, v):
        if v[0] == "c":
            return ("n", con(v[1]))
        if v[0] == "null":
            return ("null",)
        if v[0] == "a":
            k = v[1]
            if k in self.lists:
                return ("list", k)
            if k in self.ints:
                return ("n", sym(("a", k)))
            return ("arg", k)
        if v[0] == "i":
            return st.env.get(v[1], ("op", v[1]))
        return ("op", v)

    def num(self, st, v):
        r = self.val(st, v)
        if r[0] == "n":
            return r[1]
        return sym(("opq", r))

    # ---------- assumptions
    def assume_ptr(self, st, a, b, eq):
        """False when impossible"""
        if a == b:
            return eq
        k = frozenset((a, b))
        if k in st.pf:
            return st.pf[k] == eq
        if ("null",) in k:
            o = a if b == ("null",) else b
            if o[0] in ("arr", "list", "cell", "mem"):
                return not eq
            if o[0] == "rd":
                hasrd = not st.rd.get(o[1], True) is None and st.rd.get(o[1]) != "null"
                known = st.rd.get(o[1])
                return (known == "null") == eq
            if o[0] == "E":
                kn = self.nonnull(st, o)
                if kn and eq:
                    return False
        st.pf[k] = eq
        for e, o in ((a, b), (b, a)):
            if e[0] == "E":
                L, ver, x = e[1:]
                if o == ("null",):
                    self.learn(st, L, "v", ver, x, not eq)
                elif o[0] == "arg":
                    self.learn(st, L, o[1], ver, x, eq)
                    if eq:
                        self.learn(st, L, "v", ver, x, True)
        return True

    def learn(self, st, L, q, ver, x, hit):
        st.eqs.append(sub(sub(sym(("G", L, q, ver, add(x, con(1)))), sym(("G", L, q, ver, x))), con(1 if hit else 0)))

    def nonnull(self, st, e):
        if e[0] == "arg":
            return True
        if e[0] != "E":
            return e[0] in ("list", "arr", "mem")
        L, ver, x = e[1:]
        if st.pf.get(frozenset((e, ("null",)))) is False:
            return True
        for k, v in st.pf.items():
            if v and e in k and any(o[0] == "arg" for o in k):
                return True
            if not v and ("null",) in k:
                (o,) = [o for o in k if o != ("null",)] or [None]
                if o and o[0] == "E" and o[1] == L and o[2] == ver and self.eq0(st, sub(o[3], x)):
                    return True
            if v and any(o[0] == "arg" for o in k):
                for o in k:
                    if o[0] == "E" and o[1] == L and o[2] == ver and self.eq0(st, sub(o[3], x)):
                        return True
        if ver == 0 and isinstance(L, int) and self.base_proves(st, x):
            if st.nul.get(L):
                if self.base_proves(st, add(sub(ntot0(L), x), con(-1))):
                    return True
            elif self.base_proves(st, add(sub(S("REM1", L), x), con(-1))):
                return True
        for q in ["v"] + self.ptrs:
            g1, g0 = ("G", L, q, ver, add(x, con(1))), ("G", L, q, ver, x)
            if g1 in self.ghosts(st, []) and self.ge(st, add(sub(sym(g1), sym(g0)), con(-1))):
                return True
        return False

    def isnull(self, st, e):
        if e == ("null",):
            return True
        if st.pf.get(frozenset((e, ("null",)))) is True:
            return True
        if e[0] == "E":
            for k, v in st.pf.items():
                if v and ("null",) in k:
                    for o in k:
                        if o[0] == "E" and o[1:3] == e[1:3] and self.eq0(st, sub(o[3], e[3])):
                            return True
        return False

    def assume(self, st, c, truth):
        """c a condition value; returns False when impossible"""
        if c[0] == "n":
            if isconst(c[1]):
                return (cst(c[1]) != 0) == truth
            c = ("cond", "ne", c[1], ())
        if c[0] == "not":
            return self.assume(st, c[1], not truth)
        if c[0] == "pcond":
            return self.assume_ptr(st, c[2], c[3], (c[1] == "eq") == truth)
        if c[0] == "cond":
            p, a, b = c[1:]
            d = sub(a, b)
            if p in ("eq", "ne"):
                if (p == "eq") == truth:
                    if self.ne(st, d):
                        return False
                    st.eqs.append(d)
                    self.boolfacts(st, d, True)
                else:
                    if self.eq0(st, d):
                        return False
                    if self.base_proves(st, d):
                        st.ges.append(add(d, con(-1)))
                    elif self.base_proves(st, scale(d, -1)):
                        st.ges.append(add(scale(d, -1), con(-1)))
                    else:
                        st.nes.append(d)
                    self.boolfacts(st, d, False)
                return True
            p = p.lstrip("us")
            if p == "lt":
                g = add(sub(b, a), con(-1)) if truth else sub(a, b)
            elif p == "le":
                g = sub(b, a) if truth else add(sub(a, b), con(-1))
            elif p == "gt":
                g = add(sub(a, b), con(-1)) if truth else sub(b, a)
            else:
                g = sub(a, b) if truth else add(sub(b, a), con(-1))
            if self.base_proves(st, add(scale(g, -1), con(-1))):
                return False
            if not isconst(g):
                st.ges.append(g)
            elif cst(g) < 0:
                return False
            return True
        return True

    def boolfacts(self, st, d, zero):
        pass

    # ---------- memory
    def modified(self, body):
        """lists whose storage is written inside the loop, cells stored"""
        f = self.f
        L, cells = set(), set()
        for b in body:
            for x in f.blocks[b]:
                if x.op == "store":
                    cells.add(self.cellkey(x.o[1]))
                    y = f.get(strip(f, x.o[1]))
                    if y is not None and y.op == "getelementptr" and y.path and len(y.path) == 1 and y.path[0][0] == "x":
                        L |= self.lists_of(y.o[0])
                elif x.op == "call" and x.callee:
                    for o in x.o:
                        cells.add(self.cellkey(o))
                    if x.callee.startswith("llvm.mem") or x.callee in ("memmove", "memcpy"):
                        L |= self.lists_of(x.o[0])
                    elif x.callee.startswith("List_") or x.callee == "qsort":
                        for o in x.o[:2]:
                            o = strip(f, o)
                            if o[0] == "a" and o[1] in self.lists and x.callee not in READERS:
                                L.add(o[1])
        return L, cells - {None}

    def lists_of(self, v):
        """lists whose storage the pointer may belong to"""
        f = self.f
        out, seen, todo = set(), set(), [v]
        while todo:
            v = strip(f, todo.pop())
            if v in seen:
                continue
            seen.add(v)
            y = f.get(v)
            if y is None:
                continue
            if y.op == "getelementptr" and y.path and y.path[-1][0] == "f":
                o = strip(f, y.o[0])
                if o[0] == "a" and o[1] in self.lists:
                    out.add(o[1])
                continue
            if y.op == "getelementptr":
                todo.append(y.o[0])
            elif y.op == "load":
                todo.append(y.o[0])
            elif y.op == "phi":
                todo += [o for o, _ in y.o]
            elif y.op == "select":
                todo += y.o[1:]
            elif y.op == "call" and y.callee in ("realloc", "List_Entries"):
                todo.append(y.o[0])
                o = strip(f, y.o[0])
                if o[0] == "a" and o[1] in self.lists:
                    out.add(o[1])
        return out

    def cellkey(self, v):
        v = strip(self.f, v)
        if v[0] == "a" and v[1] in self.ptrs:
            return ("d", v[1])
        y = self.f.get(v)
        if y is not None and y.op == "alloca":
            return ("al", y.i)
        return None

    # ---------- loop headers
    def hsyms(self, h):
        """header symbols: int phis, int cells, A/H of modified lists"""
        f = self.f
        out = []
        for x in f.blocks[h]:
            if x.op != "phi":
                break
            if x.t in ("i32", "i64"):
                out.append(("h", h, ("phi", x.i)))
        L, cells = self.modified(self.loops[h])
        for c in sorted(cells, key=repr):
            out.append(("h", h, c))
        for k in sorted(L):
            out.append(("h", h, ("A", k)))
            out.append(("h", h, ("H", k)))
        return out

    def make_cands(self, h):
        """templates: (kind, form) over header symbols; G symbols carry the version placeholder 'cur'"""
        hs = self.hsyms(h)
        iv = [s for s in hs if s[2][0] in ("phi", "al", "d")]
        ah = [s for s in hs if s[2][0] in ("A", "H")]
        outer = []
        for g, body in self.loops.items():
            if g != h and (h in body or g in self.f.dom[h]):
                outer += [s for s in self.hsyms(g) if s[2][0] in ("phi", "al", "d")]
        terms = [()]
        for L in self.lists:
            terms += [ntot0(L), S("NENT", L), S("NREM", L)]
            if self.shifts:
                terms.append(S("P", L))
        terms += [sym(("a", k)) for k in self.ints]
        terms += [sym(("in", p)) for p in self.ptrs if self.intcell(p)]
        c = {}
        for k in sorted(self.modified(self.loops[h])[0]):
            c[("same", k)] = True

        def put(kind, f):
            if not isconst(f):
                c[(kind, f)] = True
        for i, s in enumerate(iv):
            fs = sym(s)
            others = [sym(t) for t in iv[i + 1:]] + [sym(t) for t in outer]
            for t in terms + others:
                d = sub(fs, t)
                for k in (-1, 0, 1):
                    put("ge", add(d, con(k)))
                    put("ge", add(scale(d, -1), con(k)))
                put("ne", d)
                put("eq", d)
                put("eq", add(d, con(1)))
                put("eq", add(d, con(-1)))
                for q in (-1, 1):
                    put("ne", add(d, con(q)))
            for L in self.lists:
                for q in ["v"] + [p for p in self.ptrs if not self.intcell(p)]:
                    g = sym(("G", L, q, "cur", fs))
                    for t in [()] + [sym(u) for u in iv if u != s]:
                        for k in (-1, 0, 1):
                            put("eq", add(sub(g, t), con(k)))
                    for a in self.ints:
                        for u in iv:
                            if u != s:
                                for k in (-1, 0, 1):
                                    put("eq", add(sub(add(g, sym(u)), sym(("a", a))), con(k)))
                    # a flag that says what was found at the position
                    dg = sub(sym(("G", L, q, "cur", add(fs, con(1)))), g)
                    for u in iv:
                        if u != s and self.flag(u):
                            put("ge", sub(sub(con(1), sym(u)), dg))
                            put("ge", sub(dg, sym(u)))
                    # scanning from another position
                    for t in outer + [u for u in iv if u != s]:
                        for k1 in (0, 1):
                            for k2 in (0, 1):
                                lo = add(fs, con(k1)); hi = add(sym(t), con(k2))
                                dg = sub(sym(("G", L, q, "cur", hi)), sym(("G", L, q, "cur", lo)))
                                put("eq", dg)
                                put("eq", sub(dg, sub(hi, lo)))
                    for a in self.ints:
                        dg = sub(g, sym(("G", L, q, "cur", sym(("a", a)))))
                        put("eq", dg)
                    for p in [p for p in self.ptrs if self.intcell(p)]:
                        put("eq", sub(g, sym(("G", L, q, "cur", sym(("in", p))))))
        for s in ah:
            fs = sym(s)
            put("eq", fs)
            for t in iv:
                put("eq", sub(fs, sym(t)))
                for L in self.lists:
                    g = sym(("G", L, "v", "cur", sym(t)))
                    put("eq", sub(fs, g))
                    put("eq", add(sub(fs, sym(t)), g))
                for u in ah:
                    if u != s:
                        put("eq", sub(add(fs, sym(u)), sym(t)))
                        for L in self.lists:
                            put("eq", sub(add(add(fs, sym(u)), ntot0(L)), sym(t)))
        return c

    def flag(self, u):
        """header variable that only ever takes the values 0 and 1"""
        if u[2][0] != "phi":
            return False
        seen, todo = set(), [("i", u[2][1])]
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            if v[0] == "c":
                if v[1] not in (0, 1):
                    return False
                continue
            y = self.f.get(v)
            if y is None:
                return False
            if y.op == "phi":
                todo += [o for o, _ in y.o]
            elif y.op == "zext" and y.t != "i1":
                z = self.f.get(y.o[0])
                if z is None or z.t != "i1":
                    return False
            elif y.op == "icmp":
                pass
            else:
                return False
        return True

    def intcell(self, p):
        """is argument p an integer passed by address?"""
        f = self.f
        return any(x.op in ("load", "store") and strip(f, x.o[-1]) == ("a", p) and (x.t in ("i32", "i64") or x.op == "store")
                   for b in f.blocks for x in b)

    def inst(self, f, m, st, ver=None):
        """instantiate a template: header symbols by m, else by their current values; G versions by the state's"""
        r = ()
        if ver is None:
            ver = st.ver
        for s, c in f:
            if s in m:
                r = add(r, scale(m[s], c))
            elif isinstance(s, tuple) and s[0] == "G" and s[3] == "cur":
                x = self.inst(s[4], m, st, ver)
                r = add(r, scale(sym(("G", s[1], s[2], ver.get(s[1], 0), x)), c))
            elif isinstance(s, tuple) and s[0] == "h" and s in st.hcur:
                r = add(r, scale(st.hcur[s], c))
            else:
                r = add(r, ((s, c),))
        return r

    def hvals(self, h, st, prev):
        """value of every header symbol when control reaches h from prev; None where not a number"""
        m = {}
        for s in self.hsyms(h):
            k = s[2]
            if k[0] == "phi":
                x = self.f.ins[k[1]]
                (v,) = [v for v, pb in x.o if pb == prev][:1] or [None]
                m[s] = self.num(st, v)
            elif k[0] in ("al", "d"):
                v = st.cells.get(k)
                m[s] = v[1] if v is not None and v[0] == "n" else sym(("unk", k))
            elif k[0] == "A":
                m[s] = st.A.get(k[1], ())
            elif k[0] == "H":
                m[s] = st.H.get(k[1], ())
        return m

    def check_cands(self, h, st, m, ver, ver0):
        for key in list(self.cands[h]):
            kind, f = key
            if kind == "same":
                ok = ver.get(f) == ver0.get(f)
            else:
                g = self.inst(f, m, st, ver)
                if kind == "ge":
                    ok = self.ge(st, g)
                elif kind == "eq":
                    ok = self.eq(st, g, ())
                else:
                    ok = self.ne(st, g)
            if not ok:
                del self.cands[h][key]
                self.changed = True

    def twice(self, h):
        """loops entered with the last round followed step by step"""
        if h not in self._twice:
            f = self.f
            r = self.inner(h)
            for x in f.blocks[h]:
                if x.op == "phi" and (x.t not in ("i32", "i64") or self.flag(("h", h, ("phi", x.i)))):
                    r = True
            L, cells = self.modified(self.loops[h])
            if L and not any(x.op == "call" and (x.callee or "").startswith("llvm.memmove") for b in self.loops[h] for x in f.blocks[b]):
                r = True
            if cells:
                r = True
            self._twice[h] = r
        return self._twice[h]

    def visit(self, h, st, m):
        """st stands at the header with the values m"""
        for x in self.f.blocks[h]:
            if x.op != "phi":
                break
        st.hcur.update(m)

    def enter_header(self, h, st, prev):
        """the state for any round of the loop"""
        f = self.f
        body = self.loops[h]
        L, cells = self.modified(body)
        n = st.icnt.get(h, 0)
        st.icnt[h] = n + 1
        st.init.update({s + (n,): v for s, v in self.hvals(h, st, prev).items()})      # values on entry to the loop
        m = {s: sym(s + (n,)) for s in self.hsyms(h)}
        for x in f.blocks[h]:
            if x.op != "phi":
                break
            if x.t in ("i32", "i64"):
                st.env[x.i] = ("n", m[("h", h, ("phi", x.i))])
            else:
                st.env[x.i] = ("hp", h, x.i, n)
        for c in cells:
            st.cells[c] = ("n", m[("h", h, c)])
        for k in L:
            if ("same", k) not in self.cands[h]:
                st.ver[k] = ("w", h, k, n)
            st.A[k] = m[("h", h, ("A", k))]
            st.H[k] = m[("h", h, ("H", k))]
        st.hcur.update(m)
        for want in ("eq", "ge", "ne"):
            for kind, g in self.cands[h]:
                if kind != want:
                    continue
                g = self.inst(g, m, st)
                if kind == "ge":
                    if not lin.proves(st.ges, st.eqs, g):
                        st.ges.append(g)
                elif kind == "eq":
                    if not (lin.proves(st.ges, st.eqs, g) and lin.proves(st.ges, st.eqs, scale(g, -1))):
                        st.eqs.append(g)
                elif not self.ne(st, g):
                    st.nes.append(g)
        if any(x.op == "call" and (x.callee or "").startswith("llvm.memmove") for b in body for x in f.blocks[b]):
            st.comp = True
        st.inl.append(h)
        return st

    # ---------- running
    def run(self):
        rounds = 0
        while True:
            rounds += 1
            self.changed = False
            self.cache = {}
            self.rets = []
            self.once()
            if self.final:
                return
            if not self.changed:
                self.final = True
            if rounds > 40:
                raise Broken("invariants of %s do not settle" % self.f.name)

    def start(self):
        st = St()
        states = [st]
        for k in self.ints:
            st.ges.append(sym(("a", k)))
        for L in self.lists:
            st.ges += [S("NENT", L), S("P", L)]
            pw = sym(("pow", S("P", L)))
            st.ges += [add(pw, con(-1)), add(sub(pw, ntot0(L)), con(-1))]
            st.cap[L] = add(pw, con(-1))
            st.par[L] = (S("NENT", L), S("P", L), S("NREM", L), S("REM1", L))
            st.A[L] = (); st.H[L] = (); st.ver[L] = 0; st.holes[L] = []
        for p in self.ptrs:
            st.cells[("d", p)] = ("n", sym(("in", p)))
        for L in self.lists:
            nxt = []
            for s in states:
                a = s.copy()
                a.eqs += [S("NREM", L), add(S("REM1", L), con(1))]
                a.nul[L] = True; a.rd[L] = "null"
                b = s
                b.ges += [add(S("NREM", L), con(-1)), S("REM1", L), add(sub(ntot0(L), S("REM1", L)), con(-1))]
                b.nul[L] = False; b.rd[L] = "set"
                nxt += [a, b]
            states = nxt
        return states

    def once(self):
        f = self.f
        work = [(0, None, s) for s in self.start()]
        n = 0
        while work:
            b, prev, st = work.pop()
            n += 1
            if n > 4000:
                raise Broken("too many paths in %s" % f.name)
            if prev is not None:
                # rounds of a loop other than the last are not left
                if any(st.mode.get(h) == "abs" and prev in body and b not in body for h, body in self.loops.items()):
                    continue
            if b in self.loops:
                if b not in self.cands:
                    self.cands[b] = self.make_cands(b)
                    self.changed = True
                if prev in self.loops[b]:
                    mode = st.mode.get(b)
                    if not self.possible(st):
                        continue
                    m = self.hvals(b, st, prev)
                    if mode == "plain":
                        self.check_cands(b, st, m, st.ver, st.snap[b][2])
                        self.back_edge(b, st, m)
                        continue
                    if mode in ("first", "post"):
                        m0, ver, ver0 = st.snap[b]
                        if mode == "post":
                            pass
                        self.check_cands(b, st, m0, ver, ver0)
                        continue
                    self.back_edge(b, st, m)
                    st.mode[b] = "post"
                    st.snap[b] = (m, dict(st.ver), st.snap[b][2])
                    self.phis(b, prev, st)
                    st.hcur.update(m)
                else:
                    if not self.possible(st):
                        continue
                    m = self.hvals(b, st, prev)
                    ver0 = dict(st.ver)
                    if self.twice(b):
                        s2 = st.copy()
                        s2.mode[b] = "first"
                        s2.snap[b] = (m, ver0, ver0)
                        s2.hcur.update(m)
                        self.phis(b, prev, s2)
                        work2 = [(b, s2)]
                        st.mode[b] = "abs"
                    else:
                        self.check_cands(b, st, m, ver0, ver0)
                        st.mode[b] = "plain"
                        work2 = []
                    st.snap[b] = (None, None, ver0)
                    st = self.enter_header(b, st, prev)
                    work2.append((b, st))
                    for b2, s2 in work2:
                        self.block_run(b2, s2, work)
                    continue
            else:
                self.phis(b, prev, st)
            self.block_run(b, st, work)

    def block_run(self, b, st, work):
        f = self.f
        if True:
            states = [st]
            for x in f.blocks[b]:
                if x.op == "phi":
                    continue
                if x.op in ("br", "switch", "ret", "unreachable"):
                    break
                nxt = []
                for s in states:
                    nxt += self.step(x, s)
                states = nxt
            t = f.blocks[b][-1]
            for s in states:
                if t.op == "ret":
                    if self.possible(s):
                        self.rets.append((t, s, self.val(s, t.o[0]) if t.o else None))
                elif t.op == "br" and t.o:
                    c = self.val(s, t.o[0])
                    for idx, d in enumerate(t.succ):
                        n2 = s.copy()
                        if self.assume(n2, c, idx == 0):
                            work.append((d, b, n2))
                elif t.op == "switch":
                    v = self.num(s, t.o[0])
                    n2 = s.copy()
                    ok = True
                    for c, d in t.cases:
                        n3 = s.copy()
                        if self.assume(n3, ("cond", "eq", v, con(c)), True):
                            work.append((d, b, n3))
                        ok = ok and self.assume(n2, ("cond", "ne", v, con(c)), True)
                    if ok:
                        work.append((t.default, b, n2))
                else:
                    for d in f.succ[b]:
                        work.append((d, b, s.copy()))

    def inner(self, h):
        return any(g != h and h in body for g, body in self.loops.items())

    def phis(self, b, prev, st):
        vals = {}
        for x in self.f.blocks[b]:
            if x.op != "phi":
                break
            vs = [v for v, pb in x.o if pb == prev]
            vals[x.i] = self.val(st, vs[0]) if vs else ("op", x.i)
        st.env.update(vals)

    def back_edge(self, h, st, m):
        """storage closed up inside the loop: the number in use must drop by as much"""
        hs = [s for s in self.hsyms(h) if s[2][0] in ("phi", "al")]
        for (x, hh, end, d) in st.left:
            if hh != h:
                continue
            if not any(self.eq(st, st.hcur.get(s, sym(s)), end) and self.eq(st, m[s], sub(end, d)) for s in hs):
                self.bad("keep", x, "%s|compress" % self.f.name,
                         "%s closes up removed positions but the number of positions in use is not reduced by as many" % self.f.name)
            else:
                self.ob("keep", (self.f.name, "compress", x.i))

    def step(self, x, st):
        f = self.f
        st.vc += 1
        op = x.op
        if op == "alloca":
            st.env[x.i] = ("cell", ("al", x.i))
        elif op in ("sext", "zext", "trunc", "bitcast", "ptrtoint", "inttoptr", "freeze", "addrspacecast"):
            v = self.val(st, x.o[0])
            if v[0] in ("cond", "pcond", "not") and x.t != "i1":
                a, b = st.copy(), st
                out = []
                if self.assume(a, v, True):
                    a.env[x.i] = ("n", con(1 if op != "sext" else -1)); out.append(a)
                if self.assume(b, v, False):
                    b.env[x.i] = ("n", ()); out.append(b)
                return out
            st.env[x.i] = v
        elif op in ("add", "sub", "mul", "shl", "ashr", "lshr", "and", "or", "xor", "sdiv", "udiv", "srem", "urem"):
            st.env[x.i] = self.arith(x, st)
        elif op == "icmp":
            a, b = self.val(st, x.o[0]), self.val(st, x.o[1])
            if a[0] == "n" and b[0] == "n":
                st.env[x.i] = ("cond", x.p, a[1], b[1])
            elif x.p in ("eq", "ne") and (a[0] not in ("n", "cond", "pcond", "not")) and (b[0] not in ("n", "cond", "pcond", "not")):
                st.env[x.i] = ("pcond", x.p, a, b)
            elif x.p in ("eq", "ne") and a[0] in ("cond", "pcond", "not") and b[0] == "n" and isconst(b[1]):
                t = (cst(b[1]) != 0) == (x.p == "eq")
                st.env[x.i] = a if t else ("not", a)
            else:
                st.env[x.i] = ("n", sym(("opq", (x.i, st.vc))))
        elif op == "select":
            c = self.val(st, x.o[0])
            out = []
            for t, k in ((True, 1), (False, 2)):
                s = st.copy()
                if self.assume(s, c, t):
                    s.env[x.i] = self.val(s, x.o[k])
                    out.append(s)
            return out
        elif op == "getelementptr":
            st.env[x.i] = self.gep(x, st)
        elif op == "load":
            st.env[x.i] = self.load(x, st)
        elif op == "store":
            self.store(x, st)
        elif op == "call":
            return self.call(x, st)
        else:
            st.env[x.i] = ("n", sym(("opq", (x.i, st.vc)))) if x.t in ("i32", "i64", "i1") else ("op", x.i)
        return [st]

    def arith(self, x, st):
        av, bv = self.val(st, x.o[0]), self.val(st, x.o[1])
        if x.op == "xor" and av[0] in ("cond", "pcond", "not"):
            if bv == ("n", con(1)) or bv == ("n", con(-1)):
                return ("not", av)
        if av[0] != "n" or bv[0] != "n":
            return ("n", sym(("opq", (x.op, av, bv))))
        a, b = av[1], bv[1]
        op = x.op
        if op == "add":
            return ("n", add(a, b))
        if op == "sub":
            return ("n", sub(a, b))
        if op == "mul":
            if isconst(a):
                return ("n", scale(b, cst(a)))
            if isconst(b):
                return ("n", scale(a, cst(b)))
        if op == "shl":
            if isconst(b) and 0 <= cst(b) < 40:
                return ("n", scale(a, 1 << cst(b)))
            if isconst(a):
                p = pow2(b)
                if p is not None:
                    for s, c in p:
                        if s != 1:
                            st.ges.append(add(sym(s), con(-1)))
                    return ("n", scale(p, cst(a)))
        if op in ("ashr", "lshr", "sdiv", "udiv") and isconst(b):
            n = (1 << cst(b)) if op in ("ashr", "lshr") else cst(b)
            if n > 0:
                nd = self.packed(a)
                if nd is not None:
                    if n == 32:
                        return ("n", nd[0])
                q = lin.div(a, n)
                if q is not None:
                    return ("n", q)
                if self.base_proves(st, a):
                    r = sym(("div", a, n))
                    st.ges += [r, sub(a, scale(r, n)), sub(add(scale(r, n), con(n - 1)), a)]
                    return ("n", r)
        if op in ("and", "urem", "srem") and isconst(b):
            n = cst(b) + 1 if op == "and" else cst(b)
            nd = self.packed(a)
            if nd is not None and n == 32:
                return ("n", nd[1])
        if op in ("and", "or") and isconst(a) and isconst(b):
            return ("n", con(cst(a) & cst(b) if op == "and" else cst(a) | cst(b)))
        if op == "or":
            # (x * 2^k) | y with y < 2^k known only for the packed counters
            ca = [abs(c) for s, c in a]
            if ca and all(c % 32 == 0 for c in ca):
                return ("n", add(a, b))
            cb = [abs(c) for s, c in b]
            if cb and all(c % 32 == 0 for c in cb):
                return ("n", add(a, b))
        return ("n", sym(("opq", (op, a, b))))

    def packed(self, a):
        """32*n + p with n, p forms; only for values of the packed counter"""
        n = mk({s: c // 32 for s, c in a if c % 32 == 0})
        p = mk({s: c for s, c in a if c % 32})
        if n and p:
            return n, p
        return None

    def gep(self, x, st):
        b = self.val(st, x.o[0])
        path = x.path or ()
        if b[0] in ("list", "mem") and path and path[-1][0] == "f" and path[-1][1] == "%List":
            return ("fld", b, path[-1][2])
        if b[0] == "rd" and len(path) == 1 and path[0][0] == "x":
            i = self.num(st, path[0][1])
            return ("rdx", b[1], i)
        if b[0] == "arr" and len(path) == 1 and path[0][0] == "x":
            i = self.num(st, path[0][1])
            sz = path[0][2]
            return ("arr", b[1], add(b[2], scale(i, sz // 8))) if sz % 8 == 0 else ("op", x.i)
        if not path:
            return b
        return ("op", x.i)

    def addr(self, a):
        """the address of a list is the address of its first field"""
        if a[0] in ("list", "mem"):
            return ("fld", a, self.first)
        return a

    def load(self, x, st):
        a = self.addr(self.val(st, x.o[0]))
        if a[0] == "cell":
            return st.cells.get(a[1], ("n", sym(("unk", a[1]))) if x.t != "ptr" else ("op", x.i))
        if a[0] == "arg" and ("d", a[1]) in st.cells and x.t in ("i32", "i64"):
            return st.cells[("d", a[1])]
        if a[0] == "fld":
            L = a[1][1]
            if a[2] == "entry":
                return ("arr", L, ())
            if a[2] == "nentdat":
                pr = st.par.get(L)
                if pr and pr[0] is not None and pr[1] is not None:
                    return ("n", add(scale(pr[0], 32), pr[1]))
                return ("n", sym(("opq", (x.i, st.vc))))
            if a[2] == "remdat":
                return ("rd", L)
        if a[0] in ("rdx", "rd"):
            L = a[1]
            i = a[2] if a[0] == "rdx" else ()
            if isconst(i) and cst(i) in (0, 1) and st.par.get(L):
                if st.rd.get(L) == "null":
                    self.bad("pars", x, "%s|null" % self.f.name, "%s reads the record of holes of a list that has none" % self.f.name)
                return ("n", st.par[L][2 + cst(i)])
        if a[0] == "arr":
            L, i = a[1], a[2]
            self.readcheck(x, st, L, i)
            return ("E", L, st.ver.get(L, 0), i)
        return ("n", sym(("opq", (x.i, st.vc)))) if x.t in ("i32", "i64", "i8", "i1") else ("op", x.i)

    def total(self, st, L):
        base = ntot0(L) if L in self.lists else ()
        return add(base, add(st.A.get(L, ()), st.H.get(L, ())))

    def readcheck(self, x, st, L, i):
        w = (self.f.name, "read", x.i)
        if not self.final:
            return
        if not self.possible(st):
            return
        ok = self.ge(st, i)
        t = self.total(st, L)
        hi = self.ge(st, add(sub(t, i), con(-1))) or (L in self.lists and self.ge(st, add(sub(ntot0(L), i), con(-1))))
        if ok and hi:
            self.ob("bound", w)
        else:
            self.bad("bound", x, "%s|read" % self.f.name,
                     "%s can read entry[%s], which is not shown to be %s the positions in use" % (self.f.name, self.show(i), "below the end of" if ok else "inside"))

    def show(self, g):
        def nm(s):
            if s == 1:
                return "1"
            if s[0] == "h":
                k = s[2]
                if k[0] in ("phi", "al"):
                    return self.f.ins[k[1]].v or "i"
                return {"A": "entries gained", "H": "holes gained"}.get(k[0], "i")
            if s[0] == "a":
                return self.f.args[s[1]]
            if s[0] in ("NENT", "NREM", "REM1", "P"):
                return {"NENT": "entries", "NREM": "holes", "REM1": "first hole", "P": "p"}[s[0]]
            if s[0] == "G":
                return "count"
            if s[0] == "pow":
                return "2^(%s)" % self.show(s[1])
            return "?"
        if not g:
            return "0"
        out = []
        for s, c in g:
            out.append(str(c) if s == 1 else nm(s) if c == 1 else "%d*%s" % (c, nm(s)))
        return " + ".join(out).replace("+ -", "- ")

    def store(self, x, st):
        v = self.val(st, x.o[0])
        a = self.addr(self.val(st, x.o[1]))
        if a[0] == "cell":
            st.cells[a[1]] = v
            return
        if a[0] == "arg":
            st.cells[("d", a[1])] = v
            return
        if a[0] == "fld":
            L = a[1][1]
            if a[2] == "entry":
                if v[0] == "mem":
                    st.cap[L] = st.size.get(v[1])
                    if v[1] != ("re", L) and L in self.lists and not (len(v) > 2 and v[2] == L):
                        st.ver[L] = ("lost", x.i, st.vc)
                elif v[0] == "arr" and v[1] == L:
                    st.cap[L] = st.size.get(("re", L), st.cap.get(L))
                return
            if a[2] == "nentdat":
                pr = st.par.get(L) or (None, None, None, None)
                if v[0] == "n":
                    if isconst(v[1]):
                        st.par[L] = (con(cst(v[1]) >> 5), con(cst(v[1]) & 31)) + tuple(pr[2:])
                    else:
                        n = lin.mk({s: c // 32 for s, c in v[1] if c % 32 == 0})
                        p = lin.mk({s: c for s, c in v[1] if c % 32})
                        st.par[L] = (n, p) + tuple(pr[2:])
                else:
                    st.par[L] = (None, None) + tuple(pr[2:])
                return
            if a[2] == "remdat":
                pr = st.par.get(L) or (None, None, None, None)
                if v == ("null",):
                    st.rd[L] = "null"
                    st.par[L] = tuple(pr[:2]) + ((), con(-1))
                else:
                    st.rd[L] = "set"
                    st.par[L] = tuple(pr[:2]) + (None, None)
                return
        if a[0] in ("rdx", "rd"):
            L = a[1]
            i = a[2] if a[0] == "rdx" else ()
            pr = list(st.par.get(L) or (None,) * 4)
            if st.rd.get(L) == "null":
                self.bad("pars", x, "%s|null" % self.f.name, "%s writes the record of holes of a list that has none" % self.f.name)
            if isconst(i) and cst(i) in (0, 1):
                pr[2 + cst(i)] = v[1] if v[0] == "n" else None
                st.par[L] = tuple(pr)
            return
        if a[0] == "arr":
            self.put(x, st, a[1], a[2], v)

    def put(self, x, st, L, i, v):
        T = self.total(st, L)
        nm = self.f.name
        w = (nm, "write", x.i)
        if self.final and not self.possible(st):
            return
        ver = st.ver.get(L, 0)
        old = ("E", L, ver, i)
        null = self.isnull(st, v) or v == ("null",)
        if v[0] == "E" and v[1] == L:
            raise Broken("%s moves the entries of a list one by one" % nm)
        newver = ("s", x.i, st.vc)
        if L in st.pend and st.pend[L] is not None and self.eq0(st, sub(st.pend[L], i)):
            st.pend[L] = None
            st.ev.append(("insert", L, i, v, x, ver))
            self.ob("bound", w)
            return
        if self.eq(st, i, T):
            cap = st.cap.get(L)
            if cap is None or not self.ge(st, add(sub(cap, i), con(-1))):
                self.bad("bound", x, "%s|room" % nm, "%s adds an entry at %s without having made room for it" % (nm, self.show(i)))
            else:
                self.ob("bound", w)
            if v[0] == "E" and not self.nonnull(st, v):
                d = sub(sym(("G", v[1], "v", v[2], add(v[3], con(1)))), sym(("G", v[1], "v", v[2], v[3])))
                st.A[L] = add(st.A.get(L, ()), d)
                st.H[L] = add(st.H.get(L, ()), sub(con(1), d))
                st.holes.setdefault(L, []).append(("copied", i, v))
            else:
                st.A[L] = add(st.A.get(L, ()), con(1))
            st.ev.append(("append", L, i, v, x, ver))
            return
        if not (self.ge(st, i) and self.ge(st, add(sub(T, i), con(-1)))):
            self.bad("bound", x, "%s|write" % nm, "%s writes entry[%s], which is neither a position in use nor the first free one" % (nm, self.show(i)))
            st.ver[L] = newver
            return
        self.ob("bound", w)
        if null:
            if not self.nonnull(st, old):
                self.bad("count", x, "%s|empty" % nm, "%s takes out entry[%s], which may have been taken out before" % (nm, self.show(i)))
            st.A[L] = add(st.A.get(L, ()), con(-1))
            st.H[L] = add(st.H.get(L, ()), con(1))
            st.holes.setdefault(L, []).append(i)
            st.ev.append(("out", L, i, old, x, ver))
        else:
            if self.nonnull(st, old):
                st.ev.append(("replace", L, i, v, x, ver))
            elif self.isnull(st, old):
                st.A[L] = add(st.A.get(L, ()), con(1))
                st.H[L] = add(st.H.get(L, ()), con(-1))
                st.ev.append(("fill", L, i, v, x, ver))
            else:
                self.bad("count", x, "%s|over" % nm, "%s overwrites entry[%s] without knowing whether it is one" % (nm, self.show(i)))
                st.ev.append(("replace", L, i, v, x, ver))
        st.ver[L] = newver

    # ---------- calls
    def call(self, x, st):
        c = x.callee or ""
        args = [self.val(st, o) for o in x.o]
        st.env[x.i] = ("n", sym(("call", x.i, st.vc))) if x.t in ("i32", "i64") else ("op", x.i)
        if self.P.noreturn_call(x):
            return []
        if c == "pvtList_Get_Pars" and args[0][0] in ("list", "mem"):
            L = args[0][1]
            pr = st.par.get(L)
            for k in range(4):
                if args[1 + k][0] == "cell":
                    st.cells[args[1 + k][1]] = ("n", pr[k] if pr and pr[k] is not None else sym(("opq", (x.i, k))))
                elif args[1 + k][0] == "arg":
                    st.cells[("d", args[1 + k][1])] = ("n", pr[k])
            return [st]
        if c in ("pvtList_Get_Nent", "List_Num_Entries") and args[0][0] in ("list", "mem"):
            pr = st.par.get(args[0][1])
            if pr and pr[0] is not None:
                st.env[x.i] = ("n", pr[0])
            return [st]
        if c == "List_Size_Raw" and args[0][0] in ("list", "mem"):
            pr = st.par.get(args[0][1])
            if pr and pr[0] is not None and pr[2] is not None:
                st.env[x.i] = ("n", add(pr[0], pr[2]))
            return [st]
        if c == "List_Entries" and args[0][0] in ("list", "mem"):
            st.env[x.i] = ("arr", args[0][1], ())
            return [st]
        if c == "pvtList_Set_Pars" and args[0][0] in ("list", "mem"):
            L = args[0][1]
            n = [a[1] if a[0] == "n" else sym(("opq", (x.i, k))) for k, a in enumerate(args[1:5])]
            st.par[L] = tuple(n)
            st.ev.append(("set", L, tuple(n), None, x, None))
            # no holes -> no record of holes: the recorded first hole is meaningless
            st.rd[L] = "?"
            return [st]
        if c in ("malloc", "calloc"):
            k = ("m", x.i)
            n = args[0][1] if args[0][0] == "n" else None
            if c == "calloc" and n is not None and args[1][0] == "n":
                n = scale(n, cst(args[1][1])) if isconst(args[1][1]) else scale(args[1][1], cst(n)) if isconst(n) else None
            st.size[k] = lin.div(n, 8) if n is not None else None
            st.env[x.i] = ("mem", k)
            st.A.setdefault(k, ()); st.H.setdefault(k, ()); st.ver.setdefault(k, 0); st.holes.setdefault(k, [])
            st.par.setdefault(k, (None, None, None, None))
            st.rd.setdefault(k, "?")
            return [st]
        if c == "realloc":
            n = args[1][1] if args[1][0] == "n" else None
            if args[0][0] == "arr":
                L = args[0][1]
                st.size[("re", L)] = lin.div(n, 8) if n is not None else None
                st.env[x.i] = ("arr", L, ())
                cap = st.size[("re", L)]
                if self.final and self.possible(st):
                    if cap is None or not self.ge(st, sub(cap, self.total(st, L))):
                        self.bad("bound", x, "%s|shrink" % self.f.name, "%s reallocates the storage of a list to fewer positions than are in use" % self.f.name)
                    else:
                        self.ob("bound", (self.f.name, "realloc", x.i))
            return [st]
        if c == "free":
            if args and args[0][0] == "rd":
                st.rd[args[0][1]] = "freed"
            return [st]
        if c.startswith("llvm.memmove") or c.startswith("llvm.memcpy") or c in ("memmove", "memcpy"):
            self.block(x, st, args)
            return [st]
        if c.startswith("llvm."):
            return [st]
        if c == "MSTK_Report":
            st.rep = True
            return [st]
        used = [a[1] for a in args if a[0] in ("list", "arr")]
        if c.startswith("List_") or c in ("qsort", "bsearch"):
            for L in used:
                if c in READERS:
                    continue
                self.consistent(x, st, L)
                st.ver[L] = ("call", x.i, st.vc)
                if c != "qsort":
                    st.ev.append(("delegate", L, c, args, x, None))
            return [st]
        for o in x.o:
            k = self.cellkey(o)
            if k is not None:
                st.cells[k] = ("n", sym(("opq", (x.i, k))))
        return [st]

    def block(self, x, st, args):
        nm = self.f.name
        d, s, n = args[0], args[1], args[2]
        if d[0] == "mem" or s[0] == "mem" and d[0] not in ("arr",):
            # storage of a new list before it is attached
            for k in list(st.size):
                pass
        if d[0] != "arr" and d[0] != "mem":
            return
        if n[0] != "n" or lin.div(n[1], 8) is None:
            return
        n = lin.div(n[1], 8)
        if self.final and not self.possible(st):
            return
        if d[0] == "arr" and s[0] == "arr" and d[1] == s[1]:
            L = d[1]
            a, b = d[2], s[2]
            T = self.total(st, L)
            if self.eq(st, a, add(b, con(1))):
                cap = st.cap.get(L)
                if not self.ge(st, n) or not self.ge(st, b):
                    self.bad("bound", x, "%s|move" % nm, "%s moves a block of entries of negative length (%s)" % (nm, self.show(n)))
                elif not self.eq(st, add(b, n), T):
                    self.bad("count", x, "%s|move" % nm, "%s makes room at entry[%s] but does not move all entries behind it" % (nm, self.show(b)))
                elif cap is None or not self.ge(st, add(sub(cap, T), con(-1))):
                    self.bad("bound", x, "%s|room" % nm, "%s moves entries back by one without having made room" % nm)
                else:
                    self.ob("bound", (nm, "memmove", x.i))
                st.pend[L] = b
                st.A[L] = add(st.A.get(L, ()), con(1))
                return
            if self.ge(st, sub(b, a)):
                ver = st.ver.get(L, 0)
                if not self.eq(st, sym(("G", L, "v", ver, b)), sym(("G", L, "v", ver, a))):
                    self.bad("keep", x, "%s|lose" % nm, "%s moves entries over positions not shown to be holes" % nm)
                elif not self.ge(st, a):
                    self.bad("bound", x, "%s|move" % nm, "%s moves entries before the start of the storage" % nm)
                else:
                    self.ob("keep", (nm, "memmove", x.i))
                if L in self.lists and not self.ge(st, sub(ntot0(L), add(b, n))):
                    self.bad("bound", x, "%s|move" % nm, "%s moves entries from beyond the positions in use" % nm)
                else:
                    self.ob("bound", (nm, "memmove", x.i))
                if st.inl:
                    st.left.append((x, self.outermost(x.b), add(b, n), sub(b, a)))
                st.ev.append(("compress", L, a, None, x, ver))
                st.ver[L] = ("mv", x.i, st.vc)
                return
            self.bad("keep", x, "%s|move" % nm, "%s moves entries of a list by a distance that is neither one position back nor over holes" % nm)
            return
        if s[0] == "arr":
            # whole list appended
            SL = s[1]
            L = d[1]
            off = d[2] if d[0] == "arr" else ()
            T = self.total(st, L)
            full = self.eq(st, n, self.total(st, SL)) and self.eq(st, s[2], ())
            cap = st.cap.get(L) if d[0] == "arr" else st.size.get(L)
            if not full:
                self.bad("count", x, "%s|part" % nm, "%s copies %s positions of a list that has %s" % (nm, self.show(n), self.show(self.total(st, SL))))
                return
            if not self.eq(st, off, T):
                self.bad("bound", x, "%s|at" % nm, "%s copies entries to position %s instead of the first free one, %s" % (nm, self.show(off), self.show(T)))
            elif cap is None or not self.ge(st, sub(cap, add(off, n))):
                self.bad("bound", x, "%s|room" % nm, "%s copies entries without having made room for them" % nm)
            else:
                self.ob("bound", (nm, "memcpy", x.i))
            st.A[L] = add(st.A.get(L, ()), S("NENT", SL))
            st.H[L] = add(st.H.get(L, ()), S("NREM", SL))
            if not st.nul.get(SL):
                st.holes.setdefault(L, []).append(add(off, S("REM1", SL)))
            st.ev.append(("cat", L, SL, None, x, None))

    def outermost(self, b):
        hs = [h for h, body in self.loops.items() if b in body]
        return max(hs, key=lambda h: len(self.loops[h])) if hs else None

    def consistent(self, x, st, L, ret=False):
        """recorded counters agree with what happened to the list"""
        nm = self.f.name
        if not self.final or not self.possible(st):
            return
        pr = st.par.get(L)
        base_n = S("NENT", L) if L in self.lists else ()
        base_r = S("NREM", L) if L in self.lists else ()
        wn, wr = add(base_n, st.A.get(L, ())), add(base_r, st.H.get(L, ()))
        if pr is None or pr[0] is None or pr[2] is None:
            self.bad("count", x, "%s|unset" % nm, "%s leaves the counters of a list unset" % nm)
            return
        comp = any(e[0] == "compress" for e in st.ev) or st.comp
        if st.pend.get(L) is not None:
            self.bad("count", x, "%s|open" % nm, "%s makes room at a position and does not fill it" % nm)
        if not self.eq(st, pr[0], wn):
            self.bad("count", x, "%s|entries" % nm, "%s records %s entries where there are %s" % (nm, self.show(pr[0]), self.show(wn)))
        elif comp and L in self.lists:
            ok = self.eq(st, pr[2], ()) or (self.eq(st, pr[2], base_r) and not self.touched(st, L))
            if not ok:
                self.bad("count", x, "%s|holes" % nm, "%s closes up the holes and records %s of them" % (nm, self.show(pr[2])))
            else:
                self.ob("count", (nm, L, x.i))
        elif not self.eq(st, pr[2], wr):
            self.bad("count", x, "%s|holes" % nm, "%s records %s holes where there are %s" % (nm, self.show(pr[2]), self.show(wr)))
        else:
            self.ob("count", (nm, L, x.i))
        # capacity exponent
        cap = st.cap.get(L)
        if L not in self.lists:
            cap = cap if cap is not None else None
        if pr[1] is None:
            self.bad("bound", x, "%s|size" % nm, "%s leaves the size of a list's storage unset" % nm)
        else:
            pw = pow2(pr[1])
            if pw is not None:
                for s, c in pw:
                    if s != 1:
                        st.ges.append(add(sym(s), con(-1)))
            if cap is None or pw is None or not self.ge(st, sub(cap, add(pw, con(-1)))):
                self.bad("bound", x, "%s|size" % nm, "%s records storage for 2^p-1 = %s entries where there is room for %s" %
                         (nm, self.show(add(pw, con(-1))) if pw else "?", self.show(cap) if cap is not None else "an unknown number"))
            elif not self.ge(st, sub(add(pw, con(-1)), add(pr[0], pr[2]))):
                self.bad("bound", x, "%s|size" % nm, "%s records a storage size smaller than the number of positions in use" % nm)
            else:
                self.ob("bound", (nm, "size", L, x.i))
        # first hole
        if comp:
            return
        if self.eq(st, pr[2], ()):
            return
        m = pr[3]
        if m is None:
            self.bad("hole", x, "%s|unset" % nm, "%s records holes but not where the first one is" % nm)
            return
        need = [h for h in st.holes.get(L, []) if not (isinstance(h, tuple) and h and h[0] == "copied")]
        if L in self.lists and not st.nul.get(L):
            need.append(S("REM1", L))
        for h in st.holes.get(L, []):
            if isinstance(h, tuple) and h and h[0] == "copied":
                need.append(h[1]) if False else None
        if not self.ge(st, m):
            self.bad("hole", x, "%s|none" % nm, "%s records holes and that there is no first one" % nm)
            return
        for h in need:
            if not self.ge(st, sub(h, m)):
                self.bad("hole", x, "%s|first" % nm, "%s leaves a hole at %s below the recorded first hole, %s" % (nm, self.show(h), self.show(m)))
                return
        self.ob("hole", (nm, L, x.i))

    def touched(self, st, L):
        return any(e[1] == L and e[0] in ("out", "append", "insert", "fill", "replace", "compress", "cat") for e in st.ev)


# ---------------------------------------------------------------- what each operation promises
def spec(E, R):
    f = E.f
    nm = f.name
    kind = SPEC.get(nm)
    for (t, st, rv) in E.rets:
        if rv is not None and rv[0] == "E" and E.isnull(st, rv):
            rv = ("null",)
        for L in E.lists:
            E.consistent(t, st, L, True)
        for k in st.par:
            if k not in E.lists and isinstance(k, tuple) and k[0] == "m" and rv == ("mem", k):
                E.consistent(t, st, k, True)
        outs = [e for e in st.ev if e[0] == "out"]
        if outs:
            if any(e[0] in ("compress", "insert") or (e[0] == "delegate" and e[2] not in ("List_Rem", "List_RemSorted")) for e in st.ev):
                E.bad("keep", t, "%s|moves" % nm, "%s takes an entry out and moves others" % nm)
            else:
                E.ob("keep", (nm, "out", t.i, len(E.obs)))
        if kind is not None:
            evs = [e for e in st.ev if e[0] != "set"]
            try:
                m = kind(E, st, rv, evs)
            except Exception as ex:
                raise
            if m:
                E.bad("act", t, "%s|%s" % (nm, m[0]), "%s: %s" % (nm, m[1]))
            else:
                E.ob("act", (nm, t.i, len(E.obs)))


def isnullv(rv):
    return rv == ("null",) or rv == ("n", ())


def G(st, L, q, x, ver=0):
    return sym(("G", L, q, ver, x))


def at_valid(E, st, L, x, i, ver=0):
    """position x holds the i'th valid entry"""
    return E.eq(st, G(st, L, "v", x, ver), i) and E.nonnull(st, ("E", L, ver, x))


def sp_num(E, st, rv, evs):
    if rv[0] != "n" or not E.eq(st, rv[1], S("NENT", 0)):
        return ("value", "does not return the number of entries")


def sp_raw(E, st, rv, evs):
    if rv[0] != "n" or not E.eq(st, rv[1], ntot0(0)):
        return ("value", "does not return the number of positions in use")


def sp_entry(E, st, rv, evs):
    i = sym(("a", 1))
    if isnullv(rv):
        if not E.ge(st, sub(i, S("NENT", 0))):
            return ("overlooked", "can report no entry for an i below the number of entries")
        return
    if rv[0] != "E" or rv[2] != 0 or not at_valid(E, st, 0, rv[3], i):
        return ("wrong", "can return an entry that is not the i'th valid one")


def sp_entry_raw(E, st, rv, evs):
    i = sym(("a", 1))
    if isnullv(rv):
        if not E.ge(st, sub(i, ntot0(0))):
            return ("overlooked", "can report no entry for a position in use")
        return
    if rv[0] != "E" or not E.eq(st, rv[3], i):
        return ("wrong", "can return the entry of another position")


def sp_next(E, st, rv, evs):
    i = sym(("in", 1))
    j = st.cells.get(("d", 1))
    if isnullv(rv):
        outside = E.ge(st, sub(con(-1), i)) or E.ge(st, sub(i, ntot0(0)))
        if not outside and not E.eq(st, G(st, 0, "v", ntot0(0)), G(st, 0, "v", i)):
            return ("overlooked", "can end an iteration before the last entry")
        return
    if rv[0] != "E":
        return ("wrong", "returns something that is not an entry")
    x = rv[3]
    if not E.nonnull(st, rv):
        return ("hole", "can return a position whose entry was taken out")
    if not E.eq(st, G(st, 0, "v", x), G(st, 0, "v", i)) or not E.ge(st, sub(x, i)):
        return ("overlooked", "can skip an entry")
    if j is None or j[0] != "n" or not E.eq(st, j[1], add(x, con(1))):
        return ("next", "does not set the next position to the one after the entry returned")


def sp_contains(E, st, rv, evs):
    return found(E, st, rv, 1, con(1), con(0))


def found(E, st, rv, key, yes, no):
    if rv[0] != "n":
        return ("value", "returns something that is not an answer")
    if E.eq(st, rv[1], yes):
        if not some_key(E, st, 0, key):
            return ("wrong", "can report an entry the list does not hold")
        return
    if E.eq(st, rv[1], no):
        if not E.eq(st, G(st, 0, key, ntot0(0)), ()):
            return ("overlooked", "can overlook an entry of the list")
        return
    return ("value", "returns something that is not an answer")


def is_key(E, st, L, key, x, ver=0):
    """the entry at position x is the argument"""
    o = hit(E, st, L, key)
    if o is not None and E.eq(st, o[3], x):
        return True
    return E.ge(st, add(sub(G(st, L, key, add(x, con(1)), ver), G(st, L, key, x, ver)), con(-1)))


def some_key(E, st, L, key):
    """the argument was seen in the list"""
    if hit(E, st, L, key) is not None:
        return True
    return any(s[1] == L and s[2] == key and E.ge(st, add(sym(s), con(-1))) for s in sorted(E.ghosts(st, []), key=repr))


def hit(E, st, L, key):
    for k, v in st.pf.items():
        if v and ("arg", key) in k:
            for o in k:
                if o[0] == "E" and o[1] == L:
                    return o
    return None


def sp_locate(E, st, rv, evs):
    if rv[0] != "n":
        return ("value", "returns something that is not a position")
    o = hit(E, st, 0, 1)
    if o is not None and E.eq(st, rv[1], G(st, 0, "v", o[3])):
        return
    if E.eq(st, rv[1], con(-1)):
        if not E.eq(st, G(st, 0, 1, ntot0(0)), ()):
            return ("overlooked", "can overlook an entry of the list")
        return
    return ("wrong", "can return an index that is not the number of entries before it")


def sp_add(E, st, rv, evs):
    if rv != ("list", 0):
        return ("value", "does not return the list")
    if [e[0] for e in evs] != ["append"] or evs[0][3] != ("arg", 1):
        return ("add", "does not add the entry given, once, at the end")


def sp_chkadd(E, st, rv, evs):
    if rv != ("list", 0):
        return ("value", "does not return the list")
    if not evs:
        if not some_key(E, st, 0, 1):
            return ("skip", "can leave out an entry the list does not hold")
        return
    if [e[0] for e in evs] != ["append"] or evs[0][3] != ("arg", 1):
        return ("add", "does not add the entry given, once, at the end")
    if not E.eq(st, G(st, 0, 1, ntot0(0)), ()):
        return ("twice", "can add an entry the list holds already")


def sp_inserti(E, st, rv, evs):
    i = sym(("a", 2))
    if not evs:
        if not E.ge(st, sub(i, add(S("NENT", 0), con(1)))):
            return ("skip", "can leave out an entry for a valid position")
        return
    if rv != ("list", 0):
        return ("value", "does not return the list")
    if len(evs) != 1 or evs[0][3] != ("arg", 1):
        return ("add", "does not insert the entry given once")
    e = evs[0]
    if e[0] == "append":
        if not E.eq(st, i, S("NENT", 0)):
            return ("wrong", "adds at the end an entry meant for position i")
        return
    if e[0] != "insert" or not at_valid(E, st, 0, e[2], i):
        return ("wrong", "does not insert in front of the i'th valid entry")


def sp_insert(E, st, rv, evs):
    if rv != ("list", 0):
        return ("value", "does not return the list")
    if not evs:
        if not E.eq(st, G(st, 0, 2, ntot0(0)), ()):
            return ("overlooked", "can overlook the entry to insert before")
        return
    e = evs[0]
    if len(evs) != 1 or e[3] != ("arg", 1):
        return ("add", "does not insert the entry given once")
    if e[0] == "append":
        if not E.isnull(st, ("arg", 2)):
            return ("wrong", "adds at the end an entry meant to go before another")
        return
    if e[0] != "insert" or not is_key(E, st, 0, 2, e[2]):
        return ("wrong", "does not insert in front of the entry given")


def sp_rem(E, st, rv, evs):
    if not evs:
        if not (rv[0] == "n" and E.eq(st, rv[1], ())):
            return ("value", "reports that an entry was taken out when none was")
        if not E.eq(st, G(st, 0, 1, ntot0(0)), ()):
            return ("overlooked", "can overlook the entry to take out")
        return
    e = evs[0]
    if e[0] == "delegate" and len(evs) == 1:
        if e[2] not in ("List_Rem", "List_RemSorted") or e[3][1] != ("arg", 1):
            return ("wrong", "takes out something else than the entry given")
        if rv != st.env.get(e[4].i):
            return ("value", "does not pass on whether the entry was taken out")
        return
    if len(evs) != 1 or e[0] != "out":
        return ("more", "does more to the list than taking out one entry")
    if not is_key(E, st, 0, 1, e[2]):
        return ("wrong", "can take out an entry that is not the one given")
    if not (rv[0] == "n" and E.eq(st, rv[1], con(1))):
        return ("value", "does not report that the entry was taken out")


def sp_replace(E, st, rv, evs):
    if not evs:
        if not (rv[0] == "n" and E.eq(st, rv[1], ())):
            return ("value", "reports that an entry was replaced when none was")
        if not E.eq(st, G(st, 0, 1, ntot0(0)), ()):
            return ("overlooked", "can overlook the entry to replace")
        return
    e = evs[0]
    if len(evs) != 1 or e[0] != "replace" or not is_key(E, st, 0, 1, e[2]) or e[3] != ("arg", 2):
        return ("wrong", "can replace an entry that is not the one given, or by something else")
    if not (rv[0] == "n" and E.eq(st, rv[1], con(1))):
        return ("value", "does not report that the entry was replaced")


def positional(what, val):
    def sp(E, st, rv, evs):
        i = sym(("a", 1))
        if not evs:
            if not (rv[0] == "n" and E.eq(st, rv[1], ())):
                return ("value", "reports success without having done anything")
            if not E.ge(st, sub(i, S("NENT", 0))):
                return ("overlooked", "can fail for an i below the number of entries")
            return
        e = evs[0]
        if len(evs) != 1 or e[0] != what or not at_valid(E, st, 0, e[2], i):
            return ("wrong", "acts on an entry that is not the i'th valid one")
        if val is not None and e[3] != ("arg", val):
            return ("wrong", "does not put the entry given")
        if not (rv[0] == "n" and E.eq(st, rv[1], con(1))):
            return ("value", "does not report success")
    return sp


def sp_remi_raw(E, st, rv, evs):
    i = sym(("a", 1))
    if not evs:
        ok = E.ge(st, sub(i, ntot0(0))) or E.isnull(st, ("E", 0, 0, i))
        if not ok:
            return ("overlooked", "can leave in the entry at a position in use")
        return
    e = evs[0]
    if len(evs) != 1 or e[0] != "out" or not E.eq(st, e[2], i):
        return ("wrong", "acts on another position")


def sp_compress(E, st, rv, evs):
    if rv != ("list", 0):
        return ("value", "does not return the list")
    if any(e[0] not in ("compress",) for e in evs):
        return ("more", "does more to the list than closing up holes")
    pr = st.par[0]
    if not E.eq(st, pr[2], ()):
        return ("holes", "can leave holes")
    if st.nul.get(0):
        return
    # every position was looked at: one loop symbol k with all positions below k valid
    hs = {s for g in st.ges + st.eqs for s, _ in g if isinstance(s, tuple) and s[0] == "h" and s[2][0] == "phi"}
    ver = st.ver.get(0, 0)
    if not any(E.eq(st, G(st, 0, "v", sym(s), ver), sym(s)) and E.eq(st, st.init.get(s, ()), ntot0(0)) for s in sorted(hs, key=repr)):
        return ("overlooked", "can stop before the first position was reached")


def sp_cat(E, st, rv, evs):
    if rv != ("list", 0):
        return ("value", "does not return the first list")
    if any(e[1] == 1 and e[0] not in ("cat",) for e in evs):
        return ("src", "changes the second list")
    A, H = st.A[0], st.H[0]
    if not E.eq(st, A, S("NENT", 1)) or not E.eq(st, H, S("NREM", 1)):
        return ("part", "does not add every entry of the second list")


def sp_copy(E, st, rv, evs):
    if rv[0] != "mem":
        return ("value", "does not return a new list")
    L = rv[1]
    if not E.eq(st, st.A.get(L, ()), S("NENT", 0)):
        return ("part", "does not copy every entry")
    if any(e[1] == 0 and e[0] not in ("cat",) for e in evs):
        return ("src", "changes the list copied")


def sp_new(E, st, rv, evs):
    if rv[0] != "mem":
        return ("value", "does not return a new list")
    if not E.eq(st, st.par[rv[1]][0], ()):
        return ("empty", "the new list is not empty")


def sp_getpars(E, st, rv, evs):
    want = (S("NENT", 0), S("P", 0), S("NREM", 0), S("REM1", 0))
    for k in range(4):
        v = st.cells.get(("d", 1 + k))
        if v is None or v[0] != "n" or not E.eq(st, v[1], want[k]):
            return (("entries", "size", "holes", "first")[k], "does not read back the %s" % ("number of entries", "size of the storage", "number of holes", "first hole")[k])


def sp_setpars(E, st, rv, evs):
    pr = st.par[0]
    names = ("entries", "size", "holes", "first")
    zero = E.eq(st, sym(("a", 3)), ())
    for k in range(4):
        if k == 3 and zero:
            continue
        if pr[k] is None or not E.eq(st, pr[k], sym(("a", 1 + k))):
            return (names[k], "does not record the %s" % ("number of entries", "size of the storage", "number of holes", "first hole")[k])
    if zero and st.rd.get(0) != "null":
        return ("record", "keeps a record of holes for a list without holes")
    if not zero and st.rd.get(0) != "set":
        return ("record", "has no record of holes for a list with holes")


SPEC = {
    "pvtList_Get_Pars": sp_getpars, "pvtList_Set_Pars": sp_setpars, "pvtList_Get_Nent": sp_num,
    "List_New": sp_new, "List_Copy": sp_copy, "List_Num_Entries": sp_num, "List_Size_Raw": sp_raw,
    "List_Entry": sp_entry, "List_Entry_Raw": sp_entry_raw, "List_Next_Entry": sp_next,
    "List_Contains": sp_contains, "List_Locate": sp_locate, "List_Add": sp_add, "List_ChknAdd": sp_chkadd,
    "List_Inserti": sp_inserti, "List_Insert": sp_insert, "List_Rem": sp_rem, "List_RemSorted": sp_rem,
    "List_Replace": sp_replace, "List_Remi": positional("out", None), "List_Remi_Raw": sp_remi_raw,
    "List_Replacei": positional("replace", 2), "List_Compress": sp_compress, "List_Cat": sp_cat,
}


def subject(f):
    for b in f.blocks:
        for x in b:
            if x.path:
                for e in x.path:
                    if e[0] == "f" and e[1] == "%List":
                        return True
            if x.op == "call" and (x.callee or "").startswith("pvtList_"):
                return True
    return False


def work(f):
    E = Engine(_P, f)
    try:
        E.run()
        pars = f.name in ("pvtList_Get_Pars", "pvtList_Set_Pars")
        if pars:
            for (t, st, rv) in E.rets:
                m = SPEC[f.name](E, st, rv, [])
                if m:
                    E.bad("pars", t, "%s|%s" % (f.name, m[0]), "%s %s" % (f.name, m[1]))
                else:
                    E.ob("pars", (f.name, t.i, len(E.obs)))
        elif f.name not in ("List_Delete",):
            spec(E, None)
    except Broken as e:
        return (f.name, [], [], str(e))
    return (f.name, [(k[0], k[1], v[0], v[1]) for k, v in E.msgs.items()], sorted(E.obs, key=repr), None)


def run(P, R):
    import core
    global _P
    _P = P
    fs = sorted((f for f in P.funcs.values() if subject(f)), key=lambda f: -sum(len(b) for b in f.blocks))
    for n in SPEC:
        if n not in P.funcs:
            raise core.Broken("list operation %s is gone" % n)
    for name, msgs, obs, err in core.parallel(fs, work):
        R.funcs.add(name)
        if err:
            R.undec("count", err)
            continue
        for rule, key, where, msg in msgs:
            R.bad(rule, key, where, msg)
        for o in obs:
            R.ob(o[0], name)
