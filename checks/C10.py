"""Downward and upward adjacency describe the same connections."""
import re
import ir, summ
from ir import strip, canon, cond_key, show, expr
from walk import walk, STOP
from own import Undecided
from poly import Poly, const
RULES = {
    "link": "an operation that puts a lower-dimensional entity into an entity's own (downward) adjacency also adds the entity to that entity's upward adjacency, on every path, for every one of them",
    "unlink": "an operation that takes a lower-dimensional entity out of (or overwrites it in) the downward adjacency also removes the upward link",
    "delete": "deleting an entity that is not yet deleted removes the upward link of every lower-dimensional entity it uses",
    "restore": "restoring an entity adds the upward link of every lower-dimensional entity it uses again",
    "up": "the upward add (remove) operation of a representation stores (removes) the entity it is given on every path",
}
EXPLAIN = ("Per representation: stores into the downward adjacency fields are paired with calls of the upward operations on the same value (or the same array, over the full "
           "range), on all paths with representation tests resolved; loops that undo or redo the links are matched with the entity's own list.")
ASSUME = ["adjacency fields are named as in the representation's records (vertex, fedges, fvertices, rfaces, rvertices)"]
CONFIGS = ["default"]
CONFIGS_THOROUGH = ["default", "markers"]
MIN = {"link": 8, "unlink": 5, "delete": 4, "restore": 4, "up": 8}
REPS = ["F1", "F4", "R1", "R2", "R4"]
# self kind, field, upward kind, upward relation name
REL = [("ME", "vertex", "MV", "Edge"), ("MF", "fedges", "ME", "Face"), ("MR", "rfaces", "MF", "Region"), ("MR", "rvertices", "MV", "Region")]
PT = {"MVertex_ptr": "MV", "MEdge_ptr": "ME", "MFace_ptr": "MF", "MRegion_ptr": "MR"}
ADDS = {"List_Add": 1, "List_ChknAdd": 1, "List_Insert": 1, "List_Inserti": 1, "List_Replace": 2, "List_Replacei": 2}
REMS = {"List_Rem": 1, "List_Remi": None, "List_RemSorted": 1, "List_Replace": 1, "List_Replacei": None}


def opname(P, x):
    """generic operation a call invokes: dispatcher, table or one implementation"""
    t = x.callee or P.table_of(x) or ""
    m = re.match(r"^(M[VEFR]_(?:Add|Rem)_(?:Edge|Face|Region))(?:_jmp|_[FR]\w*)?$", t)
    return m.group(1) if m else None


def slots(P, op, i):
    g = P.globals.get(op + "_jmp")
    if not g or "init" not in g:
        return None
    e = g["init"][1][i]
    return e[1] if e[0] == "fn" else None


def selfarg(f):
    return PT.get(str(f.dargs[0])) if f.dargs else None


def fields(f, v):
    """(base, last field) of the address a list pointer is loaded from"""
    x = f.get(canon(f, v))
    if x is None or x.op != "load":
        return None
    a = f.get(canon(f, x.o[0]))
    return a


def own_field(P, f, v, kind, rep):
    """name of the own adjacency field list value v is kept in, or None"""
    for o in summ.origins(f, canon(f, v)):
        x = f.get(o)
        if x is None:
            continue
        if x.op == "load":
            n = addr_field(P, f, x.o[0], kind, rep)
            if n:
                return n
        # a list of this function that is stored into a field
        for u in f.uses.get(o, ()):
            if u.op == "store" and u.o[0] == o:
                n = addr_field(P, f, u.o[1], kind, rep)
                if n:
                    return n
    return None


def addr_field(P, f, a, kind, rep):
    """field of the own adjacency record that address a denotes (by offset: the compiler may merge equal record types)"""
    off = 0
    a = canon(f, a)
    x = f.get(a)
    if x is not None and x.op == "getelementptr":
        off = offset(P, x)
        if off is None:
            return None
        a = canon(f, x.o[0])
        x = f.get(a)
    if x is None or x.op != "load":
        return None
    # pointer to the record, loaded from self
    b = canon(f, x.o[0])
    y = f.get(b)
    nm = None
    if y is not None and y.op == "getelementptr":
        nm = [p for p in y.path if p[0] == "f"]
        nm = nm[-1][2] if nm else None
        b = canon(f, y.o[0])
    if b != ("a", 0) or nm not in (None, "adj"):
        return None
    fl = record(P, kind, rep)
    return fl.get(off) if fl else None


def offset(P, x):
    off = 0
    for p in x.path:
        if p[0] == "f":
            st = P.structs.get(p[1].lstrip("%")) or P.structs.get(p[1])
            o = [o for o, n in st or () if n == p[2]]
            if not o:
                return None
            off += o[0]
        elif p[1] != ("c", 0):
            return None
    return off


def record(P, kind, rep):
    """offset -> field of the adjacency record of a kind in a representation"""
    full = {"MV": "MVertex", "ME": "MEdge", "MF": "MFace", "MR": "MRegion"}[kind]
    for sfx in {"F1": ["F1", "F1F3", "FN", "F1F4"], "F4": ["F4", "F2F4", "FN", "F1F4"], "R1": ["R1", "RN"], "R2": ["R2", "RN"], "R4": ["R4", "FN", "RN"]}[rep]:
        st = P.structs.get("%s_Adj_%s" % (full, sfx))
        if st:
            return {o: n for o, n in st}
    return None


def vkey(f, v, depth=0):
    """identity of an entity value: elements of one array or list have the same key"""
    v = canon(f, v)
    x = f.get(v)
    if x is None:
        return v
    if x.op == "load":
        g = f.get(canon(f, x.o[0]))
        if g is not None and g.op == "getelementptr" and any(p[0] == "x" and canon(f, p[1])[0] != "c" for p in g.path):
            return ("elem", canon(f, g.o[0]) if not any(p[0] == "f" for p in g.path) else show(f, expr(f, g.o[0])))
        return ("ld", show(f, expr(f, x.o[0], 6)))
    if x.op == "call" and x.callee in ("List_Entry", "List_Next_Entry"):
        return ("list", lkey(f, x.o[0]))
    if x.op == "phi":
        os = {o for o in summ.origins(f, v)}
        ks = {vkey(f, o, depth + 1) for o in os if o != v and o[0] != "null"} if depth < 4 else set()
        if len(ks) == 1:
            return ks.pop()
    return v


def lkey(f, v):
    v = canon(f, v)
    x = f.get(v)
    if x is not None and x.op == "load":
        return show(f, expr(f, v, 6))
    return v


def index_range(f, po, v):
    """(init, step, limit polynomial) of the index an array element is read with; None when not an array element"""
    x = f.get(canon(f, v))
    if x is None:
        return None
    idx = None
    if x.op == "load":
        g = f.get(canon(f, x.o[0]))
        if g is not None and g.op == "getelementptr":
            p = [p for p in g.path if p[0] == "x" and canon(f, p[1])[0] != "c"]
            idx = p[-1][1] if p else None
    elif x.op == "call" and x.callee == "List_Entry":
        idx = x.o[1]
    if idx is None:
        return None
    i = f.get(canon(f, idx))
    if i is None or i.op != "phi" or i.b not in po.loops:
        return None
    ind = po.induction(i)
    t = f.blocks[i.b][-1]
    lim = None
    if t.op == "br" and t.o:
        k, pol = cond_key(f, t.o[0])
        if len(k) == 3 and k[0] == ("i", i.i) and k[1] == "slt":
            lim = canon(f, k[2])
    st = po.step(i)
    if ind and st == const(-1) and t.op == "br" and t.o:
        # from the last one down to the first
        k, pol = cond_key(f, t.o[0])
        y = f.get(canon(f, ind[0]))
        if len(k) == 3 and k[0] == ("i", i.i) and (k[1:] == ("slt", ("c", 0)) or k[1:] == ("sgt", ("c", -1))) and y is not None:
            n = [o for o in y.o if o != ("c", -1)] if y.op == "add" and ("c", -1) in y.o else [y.o[0]] if y.op == "sub" and y.o[1] == ("c", 1) else []
            if len(n) == 1:
                return (("c", 0), const(1), canon(f, n[0]), i.b)
    return (ind[0] if ind else None, st, lim, i.b)


def isrep(f, k, rep):
    """truth of a test of the representation type"""
    x = f.get(k[0]) if len(k) == 3 else None
    if x is not None and x.op == "call" and x.callee in ("MEnt_RepType", "MESH_RepType") and k[2][0] == "c":
        r = REPS.index(rep)
        return {"eq": r == k[2][1], "slt": r < k[2][1], "sgt": r > k[2][1]}.get(k[1])
    return None


def deleted_test(f, k):
    x = f.get(k[0]) if len(k) == 3 else None
    return x is not None and x.op == "call" and x.callee in ("MEnt_Dim",) and k[2] == ("c", -1) and k[1] == "eq" and canon(f, x.o[0]) == ("a", 0)


class Fn:
    def __init__(self, P, f, rep):
        self.P, self.f, self.rep = P, f, rep
        self.kind = selfarg(f)
        self.po = Poly(f)
        self.loops = self.po.loops
        self.memo = {}

    def innermost(self, b):
        c = [h for h, body in self.loops.items() if b in body]
        return min(c, key=lambda h: len(self.loops[h])) if c else None

    def edge(self, k, val, st):
        r = isrep(self.f, k, self.rep)
        if r is not None and r != val:
            return STOP
        return st

    def links(self, op):
        """upward calls op(X, self): [(ins, X)]"""
        f = self.f
        return [(x, x.o[0]) for x in f.instrs() if x.op == "call" and opname(self.P, x) == op and len(x.o) > 1 and canon(f, x.o[1]) == ("a", 0)]

    def post(self, A, ok_ins, ok_heads):
        """every path from A reaches one of ok_ins / enters one of the loops ok_heads before it returns or comes back to A"""
        f = self.f
        bad = []
        first = [True]

        def step(x, st):
            if x in ok_ins:
                return STOP
            if x is A:
                if not ok_heads:
                    bad.append("repeats")
                return STOP
            if x.op == "ret":
                bad.append("returns"); return STOP
            return st

        def enter(b, prev, st):
            return STOP if b in ok_heads and A.b not in self.loops[b] else st
        walk(f, (A.b, A.pos + 1), 0, step, edge=self.edge, enter=enter)
        return not bad

    def pre(self, A, ok_ins, ok_heads):
        f = self.f
        h = self.innermost(A.b)
        for x in ok_ins:
            if f.dominates(x, A) and self.innermost(x.b) == h:
                return True
        for b in ok_heads:
            if A.b not in self.loops[b] and b in f.dom[A.b]:
                return True
        return False

    def feasible(self, A):
        """A can be reached in this representation"""
        hit = []

        def step(x, st):
            if x is A:
                hit.append(1); return STOP
            return st
        walk(self.f, (0, 0), 0, step, edge=self.edge, facts=False)
        return bool(hit)


def full(F, v, adds):
    """does the link loop run over the whole of what was added"""
    r = index_range(F.f, F.po, v)
    if r is None:
        return True
    init, step, lim, h = r
    if init != ("c", 0) or step != const(1):
        return "starts or steps differently"
    for a in adds:
        ra = index_range(F.f, F.po, a)
        if ra is None or ra[2] is None or lim is None or ra[3] == h:
            continue
        if ra[2] != lim and lim not in summ.origins(F.f, ra[2]):
            return "stops at another bound"
    return True


def unconditional(F, x, h):
    """x runs on every iteration of loop h"""
    f = F.f
    for (a, s) in f.all_control_deps(x.b):
        if a == h or a not in F.loops[h] or h in f.succ[a]:
            continue
        t = f.blocks[a][-1]
        k, pol = cond_key(f, t.o[0]) if t.o else (None, None)
        if k is not None and t.op == "br":
            r = isrep(f, k, F.rep)
            if r is not None:
                continue
            # inner loop header
            if a in F.loops:
                continue
        # leaving the loop only
        return False
    return True


def run(P, R):
    stored = {}
    for kind, fld, up, rel in REL:
        for i, rep in enumerate(REPS):
            a, r = slots(P, "%s_Add_%s" % (up, rel), i), slots(P, "%s_Rem_%s" % (up, rel), i)
            stored[(kind, fld, rep)] = check_up(P, R, up, rel, rep, a, r)
    up_of = {(k, fl): (u, r) for k, fl, u, r in REL}
    done = set()
    for n, f in sorted(P.funcs.items()):
        if not f.file.startswith("src/base/"):
            continue
        kind = selfarg(f)
        if kind not in ("ME", "MF", "MR"):
            continue
        if opname_of(n):
            continue
        for rep in reps_of(P, f):
            one(P, R, f, kind, rep, stored, up_of)
    for kind, fld, up, rel in REL + [("MF", "fvertices", "MV", "Face")]:
        for i, rep in enumerate(REPS):
            # faces of R4 keep the link from their vertices; in R1, R2 a face is not reached from vertices
            ok = stored[(kind, fld, rep)] if fld != "fvertices" else rep == "R4"
            rl = (up, rel)
            if kind == "MR" and fld == "rfaces" and rep == "F4":
                ok, rl = True, ("ME", "Region")
            if not ok or not has_field(P, kind, fld, rep):
                continue
            for what, op in (("Delete", "Rem"), ("Restore", "Add")):
                t = slots(P, "%s_%s" % (kind, what), i)
                if t is None or t not in P.funcs:
                    continue
                undo(P, R, t, kind, fld, rep, what.lower(), "%s_%s_%s" % (rl[0], op, rl[1]))


def opname_of(n):
    return re.match(r"^M[VEFR]_(Add|Rem)_(Edge|Face|Region)(_.*)?$", n) and not re.match(r"^MF_Rem_Edge|^MR_Rem_Face", n)


def has_field(P, kind, fld, rep):
    if kind == "ME":
        return rep in ("F1", "F4")
    return {"fedges": rep in ("F1", "F4"), "fvertices": rep in ("R1", "R2", "R4"), "rfaces": rep in ("F1", "F4", "R4"), "rvertices": rep in ("R1", "R2")}[fld]


_reach = {}


def reps_of(P, f):
    """representations in which a function of src/base can run (dispatch tables followed for one representation)"""
    key = id(P)
    if key not in _reach:
        m = {}
        for i, rep in enumerate(REPS):
            seen, work = set(), []
            for g, d in P.globals.items():
                if g.endswith("_jmp") and "init" in d and d["init"][0] == "agg" and len(d["init"][1]) > i and d["init"][1][i][0] == "fn":
                    work.append(d["init"][1][i][1])
            for n, f2 in P.funcs.items():
                # generic operations
                if f2.file in ("src/base/MVertex.c", "src/base/MEdge.c", "src/base/MFace.c", "src/base/MRegion.c"):
                    work.append(n)
            while work:
                n = work.pop()
                if n in seen or n not in P.funcs:
                    continue
                seen.add(n)
                for x in P.funcs[n].calls():
                    if x.callee and re.match(r"^M[VEFR]_", x.callee):
                        work.append(x.callee)
            for n in seen:
                m.setdefault(n, []).append(rep)
        _reach[key] = m
    return [r for r in _reach[key].get(f.name, [])]


def check_up(P, R, up, rel, rep, a, r):
    """is the relation stored in this representation; both operations complete"""
    real = {}
    for what, n in (("Add", a), ("Rem", r)):
        f = P.funcs.get(n)
        while f is not None:
            # thin wrapper
            cs = [x for x in f.calls() if x.callee in P.funcs and x.callee != "MSTK_Report"]
            if len(cs) == 1 and re.match(r"^M[VEF]_(Add|Rem)_", cs[0].callee) and len(cs[0].o) == len(f.args):
                f = P.funcs[cs[0].callee]
            else:
                break
        if f is None:
            real[what] = None; continue
        ev = set()
        for x in f.instrs():
            if x.op == "call" and x.callee in (ADDS if what == "Add" else REMS) and any(canon(f, v) == ("a", 1) for v in x.o[1:2]):
                ev.add(x)
            elif x.op == "store" and x.at == "ptr" and own_adj(f, x.o[1]):
                if what == "Add" and canon(f, x.o[0]) == ("a", 1):
                    ev.add(x)
                elif what == "Rem" and x.o[0][0] == "null":
                    ev.add(x)
        real[what] = (f, ev)
    ra = real["Add"] and real["Add"][1]
    rr = real["Rem"] and real["Rem"][1]
    if not ra and not rr:
        return False
    for what, n in (("Add", a), ("Rem", r)):
        if not real[what]:
            continue
        f, ev = real[what]
        R.ob("up", "%s_%s_%s" % (up, what, rel), sample="%s for %s" % (n, rep))
        if not ev:
            R.bad("up", f.name, "%s:%d" % (f.file, f.line), "%s_%s_%s does nothing for %s although the other direction is stored there" % (up, what, rel, rep))
            continue
        miss = []

        def step(x, st):
            if x in ev or (x.op == "call" and x.callee == "MSTK_Report"):
                return STOP
            if x.op == "ret":
                miss.append(x); return STOP
            return st

        def nolist(k, val, st):
            # nothing stored yet: nothing to remove
            if what == "Rem" and len(k) == 3 and k[1] == "eq" and k[2][0] == "null" and val:
                x = f.get(k[0])
                if x is not None and x.op == "load" and own_adj(f, x.o[0]):
                    return STOP
            return st
        if what == "Add" or any(x.op == "call" for x in ev):
            walk(f, (0, 0), 0, step, edge=nolist)
            if miss:
                R.bad("up", f.name, "%s:%d" % (f.file, f.line), "%s can return without %s the entity it is given" % (f.name, "adding" if what == "Add" else "removing"))
        else:
            # cleared slots: each slot that Add fills is cleared when it holds the entity
            slots_a = {show(f2, expr(f2, x.o[1], 6)).replace(f2.args[0] or "", "self") for f2, e2 in [real["Add"]] if e2 for x in e2 if x.op == "store" and const_slot(f2, x.o[1])}
            slots_r = {show(f, expr(f, x.o[1], 6)).replace(f.args[0] or "", "self") for x in ev}
            if not slots_a <= slots_r:
                R.bad("up", f.name, "%s:%d" % (f.file, f.line), "%s never clears %s" % (f.name, ", ".join(sorted(slots_a - slots_r))))
    return True


def const_slot(f, a):
    x = f.get(canon(f, a))
    return x is None or x.op != "getelementptr" or all(p[0] != "x" or canon(f, p[1])[0] == "c" for p in x.path)


def own_adj(f, a):
    """address inside the adjacency record of the first argument"""
    n = 0
    while n < 6:
        n += 1
        a = canon(f, a)
        if a == ("a", 0):
            return True
        x = f.get(a)
        if x is None or x.op not in ("getelementptr", "load"):
            return False
        a = x.o[0]
    return False


def one(P, R, f, kind, rep, stored, up_of):
    F = None
    adds, rems = {}, {}
    for x in f.instrs():
        if x.op == "call" and (x.callee in ADDS or x.callee in REMS):
            fld = own_field(P, f, x.o[0], kind, rep)
            if (kind, fld) not in up_of:
                continue
            if x.callee in ADDS:
                adds.setdefault(fld, []).append((x, x.o[ADDS[x.callee]]))
            if x.callee in REMS:
                rems.setdefault(fld, []).append((x, x.o[REMS[x.callee]] if REMS[x.callee] is not None else None))
        elif x.op == "store" and kind == "ME" and x.at == "ptr" and f.name not in ("ME_New",):
            g = f.get(canon(f, x.o[1]))
            fl = []
            base = None
            while g is not None and g.op == "getelementptr":
                fl = [p[2] for p in g.path if p[0] == "f"] + fl
                base = canon(f, g.o[0])
                g = f.get(base)
            if fl and fl[-1] == "vertex" and base == ("a", 0):
                if x.o[0][0] != "null":
                    adds.setdefault("vertex", []).append((x, x.o[0]))
                if f.name.startswith("ME_Replace"):
                    rems.setdefault("vertex", []).append((x, None))
    for fld in sorted(set(adds) | set(rems)):
        if not has_field(P, kind, fld, rep):
            continue
        up, rel = up_of[(kind, fld)]
        ok = stored[(kind, fld, rep)]
        if kind == "MR" and fld == "rfaces" and rep == "F4":
            ok, up, rel = True, "ME", "Region"
        if not ok:
            continue
        F = F or Fn(P, f, rep)
        for what, evs, op in (("link", adds.get(fld, []), "%s_Add_%s" % (up, rel)), ("unlink", rems.get(fld, []), "%s_Rem_%s" % (up, rel))):
            L = F.links(op)
            for A, v in evs:
                if not F.feasible(A):
                    continue
                R.ob(what, "%s/%s" % (f.name, rep), sample="%s in %s" % (A.callee or "store", f.name))
                indirect = rep == "F4" and kind == "MR"
                if indirect and what == "unlink":
                    continue          # other faces of the region still use the edges
                if what == "link":
                    key = vkey(f, v)
                    mine = [(x, w) for x, w in L if indirect or same(vkey(f, w), key)]
                else:
                    mine = [(x, w) for x, w in L if v is None or indirect or same(vkey(f, w), vkey(f, v)) or vkey(f, w)[0] in ("elem",)] or ([] if v is not None else L)
                if not mine:
                    R.bad(what, "%s|%s|%s" % (f.name, fld, rep), "%s:%d" % (f.file, A.line), "%s changes %s of a %s without a call of %s for that entity (representation %s)" % (
                        f.name, fld, kind, op, rep))
                    continue
                ins = {x for x, w in mine}
                heads = set()
                why = None
                for x, w in mine:
                    h = F.innermost(x.b)
                    if h is not None and A.b not in F.loops[h]:
                        fl = full(F, w, [v for A2, v in evs if v is not None and same(vkey(f, v), vkey(f, w))])
                        if fl is not True:
                            why = fl; continue
                        if not unconditional(F, x, h):
                            why = "is skipped for some of them"; continue
                        heads.add(h)
                if F.post(A, ins if not why else {x for x in ins if F.innermost(x.b) == F.innermost(A.b)}, heads) or F.pre(A, ins, heads):
                    continue
                R.bad(what, "%s|%s|%s" % (f.name, fld, rep), "%s:%d" % (f.file, A.line), "%s changes %s of a %s on a path that does not call %s for that entity%s (representation %s)" % (
                    f.name, fld, kind, op, " (the loop %s)" % why if why else "", rep))


def same(a, b):
    return a == b


def undo(P, R, t, kind, fld, rep, rule, op):
    f = P.funcs[t]
    n = 0
    while n < 5:
        n += 1
        cs = [x for x in f.calls() if x.callee in P.funcs and re.match(r"^M[EFR]_%s_" % ("Delete" if rule == "delete" else "Restore"), x.callee)
              and canon(f, x.o[0]) == ("a", 0)]
        if len(cs) == 1:
            f = P.funcs[cs[0].callee]
        else:
            break
    F = Fn(P, f, rep)
    R.ob(rule, "%s/%s" % (f.name, rep), sample="%s (%s)" % (t, rep))
    L = F.links(op)
    need = 2 if fld == "vertex" else 1
    heads = {}
    for x, w in L:
        hs = [h for h, b in F.loops.items() if x.b in b]
        if hs:
            h = max(hs, key=lambda h: len(F.loops[h]))
            heads[h] = x
    bad = []
    if fld == "vertex":
        got = {}
        for x, w in L:
            got[x] = show(f, expr(f, w, 6))

        def step(x, st):
            if x in got:
                return st | {got[x]}
            if x.op == "ret" and len(st) < 2:
                bad.append("one of its vertices"); return STOP
            return st
        if heads:
            # a loop over both ends
            def enter(b, prev, st):
                return st | {"0", "1"} if b in heads else st
        else:
            enter = None
        walk(f, (0, 0), frozenset(), step, edge=lambda k, v, st: undo_edge(F, k, v, st), enter=enter)
    else:
        okh = set()
        for h, x in heads.items():
            # the list the loop runs over is the entity's own
            own = any(y.op == "call" and y.callee in ("List_Next_Entry", "List_Entry") and y.b in F.loops[h] and own_field(P, f, y.o[0], kind, rep) == fld for y in f.instrs())
            r = None
            for y in f.instrs():
                if y.op == "call" and y.callee == "List_Entry" and y.b in F.loops[h] and own_field(P, f, y.o[0], kind, rep) == fld:
                    r = index_range(f, F.po, ("i", y.i))
            if own and unconditional(F, x, h) and (r is None or r[0] == ("c", 0) and r[1] == const(1)):
                okh.add(h)

        def step(x, st):
            if x.op == "ret" and not st:
                bad.append("all its lower-dimensional entities"); return STOP
            return st

        def enter(b, prev, st):
            return 1 if b in okh else st
        walk(f, (0, 0), 0, step, edge=lambda k, v, st: undo_edge(F, k, v, st, fld, okh), enter=enter)
    if bad:
        R.bad(rule, "%s|%s|%s" % (f.name, fld, rep), "%s:%d" % (f.file, f.line), "%s (representation %s) can return without calling %s for %s" % (f.name, rep, op, bad[0]))


def undo_edge(F, k, val, st, fld=None, okh=()):
    f = F.f
    if deleted_test(f, k) and val:
        return STOP
    r = isrep(f, k, F.rep)
    if r is not None and r != val:
        return STOP
    # no adjacency at all
    if len(k) == 3 and k[1] == "eq" and k[2][0] == "null" and val:
        x = f.get(k[0])
        if x is not None and x.op == "load" and own_adj(f, x.o[0]):
            return STOP
    # no entities: the test of the first one
    if len(k) == 3 and val and (k[1] == "eq" and (k[2] == ("c", 0) or k[2][0] == "null") or k[1] == "slt" and k[2] == ("c", 1)):
        x = f.get(k[0])
        if x is not None and x.op == "call" and x.callee in ("List_Next_Entry", "List_Num_Entries") and own_field(F.P, f, x.o[0], F.kind, F.rep) == fld:
            hs = [h for h, body in F.loops.items() if x.b in body]
            if all(h in okh for h in hs):
                return STOP
    return st
