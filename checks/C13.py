"""C13: a query about an entity without neighbours answers "none" (no list, count 0, id 0) and never touches the missing answer."""
import re
import ir, core, summ, own
import C11
from ir import canon, strip
from walk import walk, STOP, Undecided

RULES = {
 "absent": "the answer of an upward or same-dimension adjacency query (NULL when there is no such neighbour) reaches, on a path where it is NULL, no operation that reads through it",
 "count": "an ID query stores the number of answers through its count argument on every path to its return",
}
EXPLAIN = ("For every call of an adjacency query outside the parallel routines the paths on which it answers NULL are followed, with the constants and NULLs that depend "
           "on it; an access through the NULL, or a call that hands it to a function whose body reads through that argument (computed from the callees' bodies), is reported.")
ASSUME = ["an entity has the downward entities its representation stores (a face its edges or vertices, a region its faces or vertices): queries on a face or region that was never given them are outside the property",
          "List_Delete, List_Num_Entries and the other List operations read through their list argument (recomputed from src/base/List.c on every run)",
          "an end vertex of an edge has that edge; the parts of a distributed mesh consist of whole elements (the routines in src/par are not looked at)",
          "allocation does not fail"]
CONFIGS = ["default"]
CONFIGS_THOROUGH = ["default", "serial"]
MIN = {"absent": 130, "count": 15}

DIM = {"V": 0, "E": 1, "F": 2, "R": 3}
TGT = {"Vertices": 0, "Edges": 1, "Faces": 2, "Regions": 3, "Region": 3}
QRE = re.compile(r"^M([VEFR])_(Adj)?(Vertices|Edges|Faces|Regions|Region)(_|$)")
IDRE = re.compile(r"^M([VEFR])_(Adj)?(Vertex|Edge|Face|Region)IDs(_|$)")


def upward(n):
    m = QRE.match(n)
    if not m:
        return False
    return bool(m.group(2)) or TGT[m.group(3)] > DIM[m.group(1)]


def target(q):
    return TGT[QRE.match(q).group(3)]


def taken_from(K, f, v):
    """dimension of the entity whose adjacency record the queried entity was taken from (it is then itself a neighbour), -1 otherwise"""
    v = strip(f, v)
    for _ in range(4):
        x = f.get(v)
        if x is None:
            return -1
        if x.op == "call" and x.callee in ("List_Entry", "List_Next_Entry"):
            v = strip(f, x.o[0])
        elif x.op == "load":
            a = K.addr(f, x.o[0])
            return DIM.get(a[0], -1) if a and len(a) == 3 else -1
        elif x.op == "call":
            q = K.P.table_of(x) or x.callee or ""
            m = QRE.match(q[:-4] if q.endswith("_jmp") else q)
            return DIM[m.group(1)] if m and not m.group(2) else -1
        else:
            return -1
    return -1


def reps_at(f, b):
    """representation numbers still possible at block b after the tests of MESH_RepType(...) on the way (None: no test)"""
    roots = [("i", x.i) for x in f.calls("MESH_RepType")]
    best = None
    for r in roots:
        d = f.get(r)
        consts = set()
        state = {d.b: None}          # None = any
        work = [d.b]
        while work:
            c = work.pop()
            cur = state[c]
            t = f.blocks[c][-1]
            outs = []
            if t.op == "br" and t.o and len(t.succ) == 2 and t.succ[0] != t.succ[1]:
                k, pol = ir.cond_key(f, t.o[0])
                for idx, s2 in enumerate(t.succ):
                    new = cur
                    if len(k) == 3 and k[0] == r and k[1] == "eq" and k[2][0] == "c":
                        yes = (idx == 0) == pol
                        if yes:
                            new = frozenset([k[2][1]]) if cur is None or k[2][1] in cur else frozenset()
                        elif cur is not None:
                            new = cur - {k[2][1]}
                    outs.append((s2, new))
            elif t.op == "switch" and canon(f, t.o[0]) == r:
                for cv, s2 in t.cases:
                    outs.append((s2, frozenset([cv]) if cur is None or cv in cur else frozenset()))
                outs.append((t.default, cur if cur is None else cur - {cv for cv, _ in t.cases}))
            else:
                outs = [(s2, cur) for s2 in f.succ[c]]
            for s2, new in outs:
                if new is not None and not new:
                    continue
                if s2 not in state:
                    state[s2] = new; work.append(s2)
                else:
                    old = state[s2]
                    j = None if old is None or new is None else old | new
                    if j != old:
                        state[s2] = j; work.append(s2)
        if state.get(b) is not None:
            best = state[b]
    return best


class Nulls:
    def __init__(s, P):
        s.P = P
        s.need = {}
        s.may = {}

    def targets(s, x):
        t = s.P.table_of(x)
        return s.P.global_fns(t) if t else ([x.callee] if x.callee else [])

    def op(s, x):
        t = s.P.table_of(x)
        if t:
            return t[:-4] if t.endswith("_jmp") else t
        return x.callee

    def may_null(s, n):
        if n in s.may:
            return s.may[n]
        s.may[n] = False
        f = s.P.funcs.get(n)
        r = False
        if f is not None and f.ret == "ptr":
            for x in f.rets():
                for o in (summ.origins(f, canon(f, x.o[0])) if x.o else ()):
                    if o[0] == "null":
                        r = True
                    y = f.get(o)
                    if y is not None and y.op == "call" and any(s.may_null(g) for g in s.targets(y) if g):
                        r = True
        s.may[n] = r
        return r

    def call_may_null(s, f, x):
        tg = s.targets(x)
        reps = reps_at(f, x.b)
        if reps is not None:
            t = s.P.table_of(x)
            if t is None and x.callee in s.P.funcs:      # wrapper around a dispatch table
                w = s.P.funcs[x.callee]
                ts = {s.P.table_of(y) for y in w.calls() if s.P.table_of(y)}
                t = ts.pop() if len(ts) == 1 else None
            if t:
                order = s.P.global_fns(t)
                tg = [order[r] for r in reps if 0 <= r < len(order)]
        return any(s.may_null(g) for g in tg if g)

    def null_uses(s, f, v, start, facts=None):
        """uses that read through v on a path from start on which v is NULL"""
        if facts is None:        # cheap pass first: branch facts are needed only to discard its reports
            return s.null_uses(f, v, start, False) and s.null_uses(f, v, start, True)
        bad = []
        init = {(v, None)}
        q = f.get(v)
        if q is not None and q.op == "call" and s.op(q) and QRE.match(s.op(q)):
            m = QRE.match(s.op(q))           # when there is no list, the number of its entries is 0
            num = "M%s_Num_%s%s" % (m.group(1), m.group(2) or "", m.group(3))
            for y in f.calls():
                if (s.op(y) or "").startswith(num) and y.o and canon(f, y.o[0]) == canon(f, q.o[0]) and y.b in f.dom[q.b]:
                    init.add((("i", y.i), 0))
        init = frozenset(init)

        def val(st, o):
            o = canon(f, o)
            if o[0] == "c":
                return ("c", o[1])
            if o[0] == "null":
                return ("n",)
            for k, w in st:
                if k == o or k == strip(f, o):
                    return ("n",) if w is None else ("c", w)
            return None

        def isnull(st, o):
            o = strip(f, o)
            return any(k == o and w is None for k, w in st)

        def step(x, st):
            if x.op == "load" and x.o and isnull(st, base(f, x.o[0])):
                bad.append(x); return STOP
            if x.op == "store" and isnull(st, base(f, x.o[1])):
                bad.append(x); return STOP
            if x.op == "call":
                for j, o in enumerate(x.o):
                    if isnull(st, o) and any(s.needs(g, j) for g in s.targets(x) if g):
                        bad.append(x); return STOP
            if x.op == "select":
                c = ir.cond_key(f, x.o[0])
                d = decide(c[0], st)
                if d is not None:
                    w = val(st, x.o[1 if d == c[1] else 2])
                    if w is not None:
                        return st | {(("i", x.i), None if w == ("n",) else w[1])}
            if x.op in ("add", "sub", "zext", "sext", "trunc") and x.o:
                w = [val(st, o) for o in x.o]
                w = [("c", 0) if q == ("n",) else q for q in w]
                if all(q is not None and q[0] == "c" for q in w) and not f._inloop(x.b):
                    r = w[0][1] if len(w) == 1 else (w[0][1] + w[1][1] if x.op == "add" else w[0][1] - w[1][1])
                    return st | {(("i", x.i), r)}
            return st

        def decide(k, st):
            if not (isinstance(k, tuple) and len(k) == 3):
                return None
            a, b = val(st, k[0]), val(st, k[2])
            if a is None or b is None:
                return None
            if a == ("n",) or b == ("n",):
                zero = [("n",), ("c", 0)]
                return (a in zero and b in zero) if k[1] == "eq" else None
            return {"eq": a[1] == b[1], "slt": a[1] < b[1], "sgt": a[1] > b[1], "ult": abs(a[1]) < abs(b[1]), "ugt": abs(a[1]) > abs(b[1])}.get(k[1])

        def edge(k, w, st):
            d = decide(k, st)
            if d is not None and d != w:
                return STOP
            return st

        def enter(b, prev, st):
            new = {}
            phis = {("i", x.i) for x in f.blocks[b] if x.op == "phi"}
            for x in f.blocks[b]:
                if x.op != "phi":
                    break
                for o, pb in x.o:
                    if pb == prev:
                        w = val(st, o)
                        if w is not None and (w == ("n",) or abs(w[1]) <= 2):
                            new[("i", x.i)] = None if w == ("n",) else w[1]
            defs = {("i", x.i) for x in f.blocks[b]}
            if v in defs:
                return STOP
            out = [(k, w) for k, w in list(st) + list(new.items()) if (k in new or k not in defs) and live(k, b)]
            if not any(w is None for k, w in out):
                return STOP             # nothing missing can be used any more
            return frozenset(out)

        memo = {}

        def live(k, b):
            if (k, b) not in memo:
                r = memo.get(b)
                if r is None:
                    r = memo[b] = f.reachable_from(b) | {b}
                memo[(k, b)] = any(u.b in r or u.op == "phi" and any(o == k and pb in r for o, pb in u.o) for u in names(k))
            return memo[(k, b)]

        def names(k):
            """uses of k, also through address arithmetic and casts"""
            out, work, seen = [], [k], set()
            while work:
                p = work.pop()
                if p in seen:
                    continue
                seen.add(p)
                for u in f.uses.get(p, ()):
                    out.append(u)
                    if u.op in ("getelementptr", "ptrtoint", "inttoptr", "bitcast", "zext", "sext", "trunc", "icmp", "and", "or", "xor", "add", "sub"):
                        work.append(("i", u.i))
            return out
        walk(f, start, init, step, edge=edge, enter=enter, facts=facts)
        return bad

    def needs(s, n, j):
        key = (n, j)
        if key in s.need:
            return s.need[key]
        s.need[key] = False
        f = s.P.funcs.get(n)
        if f is None or j >= len(f.args):
            return False
        if not hasattr(f, "_inloop"):
            inl(f)
        try:
            r = bool(s.null_uses(f, ("a", j), (f.rpo()[0], 0)))
        except Undecided:
            r = False
        s.need[key] = r
        return r


def base(f, p):
    """pointer stripped of address arithmetic"""
    p = strip(f, p)
    while True:
        x = f.get(p)
        if x is not None and x.op == "getelementptr":
            p = strip(f, x.o[0])
        else:
            return p


def inl(f):
    body = set()
    for blocks in f.loops().values():
        body |= set(blocks)
    f._inloop = lambda b: b in body


def one_has(f, v):
    """the entity is an end of an edge the routine was given or found (so it has that edge)"""
    for o in summ.origins(f, v):
        x = f.get(o)
        if x is not None and x.op == "call" and x.callee in ("ME_Vertex", "ME_OppVertex"):
            continue
        a = base(f, x.o[0]) if x is not None and x.op == "load" else None
        if a is not None and f.get(a) is not None and f.get(a).op == "alloca":
            st = [y for y in f.instrs() if y.op == "store" and base(f, y.o[1]) == a]
            if st and all(f.get(strip(f, y.o[0])) is not None and f.get(strip(f, y.o[0])).callee in ("ME_Vertex", "ME_OppVertex") for y in st):
                continue
        if any(y.callee == "ME_OppVertex" and len(y.o) > 1 and o in summ.origins(f, y.o[1]) for y in f.calls()):
            continue
        return False
    return True


def flagged(f, x):
    """the query is made only when a flag that was computed from other neighbours of the same entity says so"""
    for k in own.dominating_facts(f, x.b):
        y = f.get(k[0]) if len(k) == 3 else None
        if y is not None and y.op == "phi" and y.t != "ptr":
            if any(z is not x and z.op == "call" and z.callee and QRE.match(z.callee) and z.o and canon(f, z.o[0]) == canon(f, x.o[0]) and f.dominates(z, y)
                   for z in f.calls()):
                return True
    return False


def known_present(f, x):
    """an earlier load of the same slot was tested and is not NULL on every path here"""
    e = ir.expr(f, x.o[0])
    for k, w in own.dominating_facts(f, x.b).items():
        if len(k) == 3 and k[1] == "eq" and k[2] in (("null",), ("c", 0)) and w is False:
            y = f.get(k[0])
            if y is not None and y.op == "load" and ir.expr(f, y.o[0]) == e:
                return True
    return False


def count_arg(f):
    """the first int* parameter"""
    for i, t in enumerate(f.dargs):
        if re.sub(r"\s+", "", str(t)) == "int*":
            return i
    return None


def run(P, R):
    N = Nulls(P)
    K = C11.Kinds(P)
    work = []
    for n, f in sorted(P.funcs.items()):
        if not any(d in f.file for d in ("/base/","/mod/","/hilev/","/io/","/misc/","/util/")):
            continue
        for x in f.calls():
            if x.op != "call" or x.t != "ptr":
                continue
            q = N.op(x)
            if not q or not upward(q):
                continue
            if taken_from(K, f, x.o[0]) >= target(q):
                continue
            if QRE.match(q).group(3) != "Region" and not N.call_may_null(f, x):
                continue
            if QRE.match(q).group(1) == "V" and target(q) == 1 and one_has(f, x.o[0]):
                continue
            if flagged(f, x):
                R.undec("absent", "%s: %s at line %d is asked for only under a flag" % (n, q, x.line))
                continue
            work.append((n, x.i, q))
    slots = set()
    for n, f in P.funcs.items():
        if n.startswith("MF_Rem_Region"):
            for x in f.instrs():
                if x.op == "store" and x.at == "ptr" and x.o[0][0] == "null":
                    a = K.addr(f, x.o[1])
                    if a and len(a) == 3:
                        slots |= set(C11.cells(a))
    for n, f in sorted(P.funcs.items()):
        if not any(d in f.file for d in ("/base/","/mod/","/hilev/","/io/","/misc/","/util/")):
            continue
        for x in f.instrs():
            if x.op == "load" and x.t == "ptr":
                a = K.addr(f, x.o[0])
                if a and len(a) == 3 and set(C11.cells(a)) & slots and not known_present(f, x):
                    work.append((n, x.i, "region slot"))
    for f in P.funcs.values():
        inl(f)

    def one(w):
        n, i, q = w
        f = P.funcs[n]
        x = f.ins[i]
        k = f.blocks[x.b].index(x)
        try:
            return [(u.line, u.callee or u.op) for u in N.null_uses(f, ("i", i), (x.b, k + 1))]
        except Undecided:
            return None
    for (n, i, q), res in zip(work, core.parallel(work, one)):
        f = P.funcs[n]
        R.ob("absent", f.file, sample="%s: answer of %s at line %d" % (n, q, f.ins[i].line))
        if res is None:
            R.undec("absent", "%s: %s" % (n, q)); continue
        for line, what in sorted(set(res))[:1]:
            R.bad("absent", "%s|%s" % (n, re.sub(r"_(F1|F4|R1|R2|R3|R4|RN|FN).*", "", q)), "%s:%d" % (f.file, line),
                  "%s takes the %s at line %d and, when there is none, reads through the missing answer (%s, line %d)" % (n, q, f.ins[i].line, what, line))
    for n, f in sorted(P.funcs.items()):
        if "/base/" not in f.file or not IDRE.match(n) or count_arg(f) is None:
            continue
        R.ob("count", f.file, sample=n)
        miss = []
        ca = ("a", count_arg(f))

        def step(x, st, f=f, miss=miss, ca=ca):
            if x.op == "store" and base(f, x.o[1]) == ca:
                return STOP
            if x.op == "call" and any(base(f, o) == ca for o in x.o):
                return STOP
            if x.op == "ret":
                miss.append(x)
            return st
        try:
            walk(f, (f.rpo()[0], 0), 0, step)
        except Undecided:
            R.undec("count", n); continue
        for x in miss[:1]:
            R.bad("count", n, "%s:%d" % (f.file, x.line), "%s returns without having stored the number of neighbours it found" % n)
