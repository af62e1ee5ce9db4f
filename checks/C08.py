"""Collective alignment and deadlock freedom of blocking exchanges."""
import ir, summ
from ir import strip, canon, cond_key
from poly import Poly
RULES = {
    "collective": "no collective operation (and no call of a routine that contains one) is executed or skipped depending on the process rank "
                  "or on data local to a process",
    "dual": "in a pairwise exchange the lower and the higher of two ranks post dual operations: a send for every receive, in the same order, "
            "with the same datatype and under dual conditions",
    "same": "the lower and the higher rank of a pair send (receive) the same message: same buffer, number of values, datatype and condition",
    "size": "a receive takes at least as many values per entity as the partner sends",
    "tag": "the tag a process sends with is the tag its partner receives with, and the partner is the process addressed",
}
EXPLAIN = ("Taint of rank and of process-local data (entity data, ghost/overlap lists, received point-to-point data, file contents) through SSA values, local "
           "arrays and parameters; control dependence of every collective call, transitively; sequences of blocking operations under rank<peer and rank>peer.")
ASSUME = ["parameters given by the application (options, attribute, mesh kind) are the same on all processes, as the documentation of collective routines requires",
          "whether a mesh has entities of a given dimension is the same on all processes"]
CONFIGS = ["default"]
CONFIGS_THOROUGH = ["default", "markers"]
MIN = {"collective": 100, "dual": 30, "same": 20, "tag": 40, "size": 20}
# collective -> index of receive buffer (result equal on all ranks), None
UNI = {"MPI_Allgather": 3, "MPI_Allgatherv": 3, "MPI_Allreduce": 1, "MPI_Bcast": 0, "MPI_Alltoall": None, "MPI_Barrier": None, "MPI_Gather": None,
       "MPI_Gatherv": None, "MPI_Scatter": None, "MPI_Scatterv": None, "MPI_Reduce": None, "MPI_Scan": None, "MPI_Exscan": None, "MPI_Comm_split": None,
       "MPI_Comm_dup": None, "MPI_Alltoallv": None, "MPI_Reduce_scatter": None}
P2P = {"MPI_Recv": 0, "MPI_Irecv": 0}
# routines whose result is the same on every process
SAME = {"MPI_Comm_size", "MAttrib_Get_Type", "MAttrib_Get_EntDim", "MAttrib_Get_NumComps", "MAttrib_Get_Name",
        "MESH_Num_Regions", "MESH_Num_Faces", "MESH_RepType", "MESH_AttribByName", "MESH_Num_Attribs", "MESH_Attrib", "MESH_Next_Attrib",
        "MESH_MSetByName", "MESH_Num_MSets", "MESH_MSet", "MESH_Next_MSet", "MSet_EntDim", "MSet_Name"}
# input functions and the index of the first argument they fill
FILL = {"fscanf": 2, "__isoc99_fscanf": 2, "__isoc99_sscanf": 2, "sscanf": 2, "fgets": 0, "fread": 0, "strcpy": 0}
PURE = {"malloc", "calloc", "realloc", "free", "strlen", "strcmp", "strncmp", "strcpy", "strncpy", "strcat", "sprintf",
        "snprintf", "abs", "fabs", "pow", "sqrt", "exit", "memcpy", "memset", "llvm.memcpy.p0.p0.i64", "llvm.memset.p0.i64", "MSTK_Report", "fprintf",
        "printf", "puts", "putchar", "fputs", "fwrite", "MPI_Abort", "MPI_Error_string", "MAttrib_New", "List_New"}


def containing(P):
    s = set()
    ch = True
    while ch:
        ch = False
        for n, f in P.funcs.items():
            if n not in s and any(x.op == "call" and (x.callee in UNI and x.callee not in P.funcs or any(t in s for t in P.targets(x))) for x in f.instrs()):
                s.add(n); ch = True
    return s


class Taint:
    """why(v): None, or the reason the value may differ between processes"""

    def __init__(self, P, f, ptaint):
        self.P, self.f, self.pt = P, f, ptaint
        self.obj = {}
        self.val = {}
        self.solve()

    def base(self, v):
        return {o for o in summ.origins(self.f, canon(self.f, v))}

    def why(self, v):
        v = strip(self.f, v) if v[0] == "i" else v
        if v[0] == "a":
            return self.pt.get(v[1])
        if v[0] == "i":
            return self.val.get(v[1])
        return None

    def objwhy(self, v, at=None):
        if at is not None and v[0] == "i" and self.fresh(at, v):
            return None
        for o in self.base(v):
            if o[0] == "i" and self.obj.get(o[1]):
                return self.obj[o[1]]
            if o[0] == "a" and self.pt.get(("obj", o[1])):
                return self.pt[("obj", o[1])]
        return None

    def setobj(self, v, w):
        ch = False
        for o in self.base(v):
            if o[0] == "i" and o[1] not in self.obj:
                x = self.f.get(o)
                if x is not None and (x.op == "alloca" or x.op == "call" and x.callee in ("malloc", "calloc", "realloc")):
                    self.obj[o[1]] = w; ch = True
        return ch

    def control(self, b):
        """is the execution of block b process dependent (for phi merges)"""
        for a, s in self.f.all_control_deps(b):
            t = self.f.blocks[a][-1]
            if t.o:
                w = self.why(t.o[0])
                if w:
                    return w
        return None

    def solve(self):
        f, P = self.f, self.P
        ch = True
        while ch:
            ch = False
            for x in f.instrs():
                w = None
                if x.op == "call":
                    c = x.callee
                    ext = c not in P.funcs
                    if c == "MPI_Comm_rank":
                        ch |= self.setobj(x.o[1], "the process rank"); continue
                    if ext and c in UNI:
                        k = UNI[c]
                        continue
                    if ext and c in P2P:
                        if x.o[3][0] == "c":
                            continue        # from a fixed process: the same for all that receive it
                        ch |= self.setobj(x.o[0], "data received from one process"); continue
                    if c in SAME or c is not None and c.startswith("llvm."):
                        if c.startswith("llvm.memcpy"):
                            w2 = self.objwhy(x.o[1]) or self.why(x.o[1])
                            if w2:
                                ch |= self.setobj(x.o[0], w2)
                        continue
                    if c in PURE:
                        for o in x.o:
                            w = w or self.why(o) or (self.objwhy(o, x) if c.startswith("str") else None)
                        if c in ("malloc", "calloc", "realloc"):
                            w = None
                        elif c in ("sprintf", "snprintf", "strcpy", "strncpy", "strcat", "memcpy"):
                            for o in x.o[1:]:
                                w2 = self.why(o) or self.objwhy(o, x)
                                if w2:
                                    ch |= self.setobj(x.o[0], w2)
                    elif c is not None and c.startswith("MPI_"):
                        if c in ("MPI_Get_count",):
                            ch |= self.setobj(x.o[2], "the size of a received message")
                        continue
                    else:
                        nm = P.targets(x)[0] if P.targets(x) else c
                        if nm in SAME or nm in P.funcs and P.funcs[nm].file.startswith("src/io/"):
                            continue      # (what is read from the files is assumed to agree)
                        if ext:
                            # file and system operations: assumed to end alike; string helpers pass on what they are given
                            if not (c and (c in ("strcmp", "strncmp", "strcasecmp", "strtok") or c.startswith("ato") or c in ("bsearch", "sscanf", "__isoc99_sscanf"))):
                                continue
                            for o in x.o:
                                w = w or self.why(o) or self.objwhy(o, x)
                            for o in x.o:
                                if w and o[0] == "i":
                                    ch |= self.setobj(o, w)
                            if w and x.i not in self.val:
                                self.val[x.i] = w; ch = True
                            continue
                        w = "the result of %s" % nm if not self.uniform_result(nm) else None
                        for o in x.o:
                            if w and o[0] == "i":
                                ch |= self.setobj(o, w)
                elif x.op == "load":
                    if self.fresh(x):
                        w = self.index_why(x.o[0])
                        if w and x.i not in self.val:
                            self.val[x.i] = w; ch = True
                        continue
                    w = self.why(x.o[0]) if not self.isaddr(x.o[0]) else None
                    bs = self.base(x.o[0])
                    for o in bs:
                        if o[0] == "i" and self.obj.get(o[1]):
                            w = w or self.obj[o[1]]
                        elif o[0] == "a" and self.pt.get(("obj", o[1])):
                            w = w or self.pt[("obj", o[1])]
                    w = w or self.index_why(x.o[0])
                elif x.op == "store":
                    w2 = self.why(x.o[0])
                    if not w2 and f.blocks[x.b][-1]:
                        w2 = self.control(x.b)
                    if w2:
                        ch |= self.setobj(x.o[1], w2)
                    continue
                elif x.op == "phi":
                    for v, pb in x.o:
                        w = w or self.why(v)
                    if not w and len({v for v, pb in x.o}) > 1:
                        here = {a for a, s in f.all_control_deps(x.b)}
                        for v, pb in x.o:
                            # which way control reached the merge
                            brs = {a for a, s in f.all_control_deps(pb)} - here
                            if len(f.succ[pb]) > 1:
                                brs.add(pb)
                            for a in brs:
                                t = f.blocks[a][-1]
                                if t.o:
                                    w = w or self.why(t.o[0])
                elif x.op in ("alloca", "br", "switch", "ret"):
                    continue
                else:
                    for o in x.o:
                        w = w or self.why(o)
                    if x.op == "gep":
                        w = None
                if w and x.i not in self.val:
                    self.val[x.i] = w; ch = True

    def writers(self, o):
        if not hasattr(self, "_wr"):
            self._wr = {}
            for x in self.f.instrs():
                if x.op == "store":
                    for b in self.base(x.o[1]):
                        self._wr.setdefault(b, []).append((x, False))
                elif x.op == "call":
                    for i, a in enumerate(x.o):
                        if a[0] != "i":
                            continue
                        for b in self.base(a):
                            y = self.f.get(b)
                            if y is not None and (y.op == "alloca" or y.op == "call"):
                                self._wr.setdefault(b, []).append((x, x.callee in UNI and x.callee not in self.P.funcs and UNI[x.callee] == i
                                                                     or x.callee in FILL and i >= FILL[x.callee]))
        return self._wr.get(o, [])

    def fresh(self, x, a=None):
        """the location read was filled by a broadcast-like collective and not changed since"""
        f = self.f
        for o in self.base(a or x.o[0]):
            if o[0] != "i":
                return False
            ok = False
            for bt in self.between(o, x):
                # writes between the collective and the read
                if not any((self.why(w.o[0]) if w.op == "store" else w.callee not in PURE and not (w.callee or "").startswith("MPI_")) for w in bt):
                    ok = True
                    break
            if not ok:
                return False
        return True

    def between(self, o, x):
        """for each collective that fills object o and dominates x: the other writes of o that can lie between it and x"""
        if not hasattr(self, "_bt"):
            self._bt = {}
        if (o, x.i) in self._bt:
            return self._bt[(o, x.i)]
        f = self.f
        ws = self.writers(o)
        out = []
        others = {w.i for w, u in ws if not u}
        for g in [c for c, u in ws if u and f.dominates(c, x)]:
            got = []
            if g.b == x.b:
                got = [y for y in f.blocks[g.b][g.pos + 1:x.pos] if y.i in others]
                out.append(got)
                continue
            # blocks on paths from g to x that do not pass g again
            back = {x.b}
            st = [x.b]
            while st:
                for q in f.pred[st.pop()]:
                    if q not in back and q != g.b:
                        back.add(q); st.append(q)
            got = [y for y in f.blocks[g.b][g.pos + 1:] if y.i in others]
            loop = any(q in back for q in f.succ[x.b])
            for q in back:
                got += [y for y in f.blocks[q] if y.i in others and (q != x.b or y.pos < x.pos or loop)]
            out.append(got)
        self._bt[(o, x.i)] = out
        return out

    def isaddr(self, v):
        return True

    def index_why(self, a):
        x = self.f.get(a)
        n = 0
        while x is not None and x.op in ("gep", "bitcast") and n < 20:
            for o in x.o[1:]:
                if self.why(o):
                    return self.why(o)
            x = self.f.get(x.o[0]); n += 1
        return None

    def uniform_result(self, nm):
        return nm in self.P._uni_res


def from_input(P, f, v, depth=6):
    """the value comes from the outcome of an external (file) operation"""
    y = f.get(strip(f, v))
    if y is None or depth == 0:
        return False
    if y.op == "call":
        return y.callee is not None and y.callee not in P.funcs and not y.callee.startswith("MPI_")
    if y.op == "load":
        return False
    return any(from_input(P, f, o[0] if y.op == "phi" else o, depth - 1) for o in y.o)


def deps(P, f, b):
    """branches that decide whether block b is executed; in file readers and writers, paths that report an error and return are left out
    (input that is damaged for one process only is outside the property)"""
    if not f.file.startswith("src/io/"):
        return f.all_control_deps(b)
    cd = f.__dict__.get("_iocd")
    if cd is None:
        err = set()
        for q in f.reach:
            if len(f.succ[q]) == 1 and f.blocks[f.succ[q][0]][-1].op == "ret" and any(x.op == "call" and x.callee == "MSTK_Report" for x in f.blocks[q]):
                err.add(q)
        live, st = set(), [n for n in f.reach if f.blocks[n][-1].op == "ret" and not f.dead_end(n)]
        while st:
            q = st.pop()
            if q not in live and q not in err:
                live.add(q); st.extend(f.pred[q])
        ALL = sum(1 << q for q in live)
        pd = {q: (1 << q if f.blocks[q][-1].op == "ret" else ALL) for q in live}
        ch = True
        order = [q for q in reversed(f.rpo()) if q in live]
        while ch:
            ch = False
            for q in order:
                if f.blocks[q][-1].op == "ret":
                    continue
                v = ALL
                for s in f.succ[q]:
                    if s in live:
                        v &= pd[s]
                v |= 1 << q
                if v != pd[q]:
                    pd[q] = v; ch = True
        cd = {}
        for a in live:
            ss = [s for s in f.succ[a] if s in live]
            if len(ss) > 1:
                for s in ss:
                    for n in live:
                        if pd[s] >> n & 1 and (n == a or not pd[a] >> n & 1):
                            cd.setdefault(n, set()).add((a, s))
        f._iocd = cd
    out, st, seen = set(), [b], {b}
    while st:
        y = st.pop()
        for a, s in cd.get(y, ()):
            out.add((a, s))
            t = f.blocks[a][-1]
            if a not in seen and not (t.o and from_input(P, f, t.o[0])):
                seen.add(a); st.append(a)
    return out


def feasible(f, a, x):
    """can x be reached from the branch that ends block a?  Flags (phis of constants) tested on the way are followed, one at a time."""
    if x.b not in f.reachable_from(a):
        return False
    done = set()
    for c, _ in f.all_control_deps(x.b):
        t = f.blocks[c][-1]
        if not t.o or t.op != "br":
            continue
        k, pol = cond_key(f, t.o[0])
        if not k or len(k) != 3:
            continue
        want = set()
        st = [k[0]]
        while st:
            y = f.get(st.pop())
            if y is not None and y.op == "phi" and y.i not in want:
                want.add(y.i)
                st += [o for o, _ in y.o]
        want = frozenset(want)
        if want and want not in done:
            done.add(want)
            if not feasible1(f, a, x, want):
                return False
    return True


def feasible1(f, a, x, want):
    st = [(s, a, frozenset()) for s in f.succ[a]]
    seen = set(st)
    while st:
        b, prev, env = st.pop()
        if len(seen) > 20000:
            return True
        e = dict(env)
        new = {}
        for y in f.blocks[b]:
            if y.op != "phi":
                break
            if y.i in want:
                new[y.i] = None
                for v, pb in y.o:
                    if pb == prev:
                        new[y.i] = v[1] if v[0] == "c" else 0 if v[0] == "null" else e.get(v[1]) if v[0] == "i" else None
        e.update(new)
        if b == x.b:
            return True
        t = f.blocks[b][-1]
        out = list(f.succ[b])
        if t.op == "br" and t.o:
            k, pol = cond_key(f, t.o[0])
            if k and len(k) == 3 and k[0][0] == "i" and e.get(k[0][1]) is not None and k[2][0] in ("c", "null") and k[1] in ("eq", "slt", "sgt"):
                v, c = e[k[0][1]], k[2][1] if k[2][0] == "c" else 0
                r = {"eq": v == c, "slt": v < c, "sgt": v > c}[k[1]]
                out = [t.succ[0] if r == pol else t.succ[1]]
        fe = frozenset((i, v) for i, v in e.items() if v is not None)
        for s in out:
            if s in f.succ[b] and (s, b, fe) not in seen:
                seen.add((s, b, fe)); st.append((s, b, fe))
    return False


def run(P, R):
    cf = containing(P)
    # results of library routines that are the same everywhere: computed on demand
    P._uni_res = set()
    pts = {n: {} for n in P.funcs}
    T = {}
    for it in range(4):
        T = {n: Taint(P, P.funcs[n], pts[n]) for n in cf}
        new = {n: {} for n in P.funcs}
        for n in cf:
            f = P.funcs[n]
            for x in f.instrs():
                if x.op != "call":
                    continue
                for t in P.targets(x):
                    if t in cf:
                        for i, o in enumerate(x.o):
                            w = T[n].why(o)
                            ty = (P.funcs[t].dargs[i] or "") if i < len(P.funcs[t].dargs) else ""
                            if w and i < len(P.funcs[t].args) and "*" not in ty and "_ptr" not in ty:
                                new[t].setdefault(i, w)
                            elif o[0] == "i":
                                w = T[n].objwhy(o)
                                if w:
                                    new[t].setdefault(("obj", i), w)
        # result of a collective routine: uniform if no return value is tainted
        ur = set()
        for n in cf:
            f = P.funcs[n]
            ok = True
            for x in f.rets():
                if x.o and T[n].why(x.o[0]):
                    ok = False
            if ok:
                ur.add(n)
        if new == pts and ur == P._uni_res:
            break
        pts, P._uni_res = new, ur
    for n in sorted(cf):
        f = P.funcs[n]
        for x in f.instrs():
            if x.op != "call":
                continue
            if x.callee in UNI and x.callee not in P.funcs:
                nm = x.callee
            else:
                ts = [t for t in P.targets(x) if t in cf]
                if not ts:
                    continue
                nm = ts[0]
            R.ob("collective", f.file, sample="%s: %s" % (n, nm))
            for a, s in sorted(deps(P, f, x.b)):
                t = f.blocks[a][-1]
                if not t.o:
                    continue
                w = T[n].why(t.o[0])
                if w and feasible(f, a, x):
                    R.bad("collective", "%s|%s|%s" % (n, nm, w), x.loc, "%s in %s is executed or not depending on %s (test at line %d), which differs between processes" % (
                        nm, n, w, t.line))
                    break
    p2p(P, R)


# ---------------------------------------------------------------- pairwise exchanges
SENDS = ("MPI_Send", "MPI_Ssend")
DUALS = [("MESH_Has_Ghosts_From_Prtn", "MESH_Has_Overlaps_On_Prtn"), ("MESH_Num_Recv_From_Prtn", "#nrecv")]


def rankvals(P):
    """values that are the rank of the calling process: per function, canonical values"""
    rv = {n: set() for n in P.funcs}
    ch = True
    while ch:
        ch = False
        for n, f in P.funcs.items():
            boxes = set()
            for x in f.calls("MPI_Comm_rank"):
                boxes.add(strip(f, x.o[1]))
            for x in f.instrs():
                if x.op == "load" and strip(f, x.o[0]) in boxes:
                    c = canon(f, ("i", x.i))
                    if c not in rv[n]:
                        rv[n].add(c); ch = True
                    if ("i", x.i) not in rv[n]:
                        rv[n].add(("i", x.i)); ch = True
        for n, f in P.funcs.items():
            cs = P.callers.get(n, []) if hasattr(P.callers, "get") else P.callers(n)
            cs = [c for c in cs]
            if not cs:
                continue
            for i in range(len(f.args)):
                if ("a", i) in rv[n]:
                    continue
                if all(i < len(c.o) and isrank(c.f, rv, c.o[i]) for c in cs):
                    rv[n].add(("a", i)); ch = True
    return rv


def isrank(f, rv, v):
    return v in rv[f.name] or canon(f, v) in rv[f.name]


class Op:
    pass


def order_truth(f, rv, peers, cond):
    """truth of a branch condition for rank<peer and rank>peer, or None if it does not compare them"""
    k, pol = cond_key(f, cond)
    if len(k) != 3:
        return None
    a, op, b = k
    if isrank(f, rv, a) and b in peers:
        lt, gt = {"slt": (True, False), "sgt": (False, True), "eq": (False, False), "ult": (True, False), "ugt": (False, True)}.get(op, (None, None))
    elif isrank(f, rv, b) and a in peers:
        lt, gt = {"slt": (False, True), "sgt": (True, False), "eq": (False, False), "ult": (False, True), "ugt": (True, False)}.get(op, (None, None))
    else:
        return None
    if lt is None:
        return None
    return (lt == pol, gt == pol)


import re


def text(f, v, rv, peer, depth=7):
    s = ir.show(f, ir.expr(f, v, depth))
    s = re.sub(r"phi\d+", "phi", s)
    return s


def role(f, v, rv, peer):
    """value of a tag in terms of the two ranks"""
    v = strip(f, v)
    if isrank(f, rv, v):
        return "ME"
    if canon(f, v) == peer:
        return "PEER"
    x = f.get(v)
    if x is not None and x.op in ("add", "mul", "sub", "shl", "or", "xor", "and"):
        a, b = role(f, x.o[0], rv, peer), role(f, x.o[1], rv, peer)
        if x.op in ("add", "mul", "or", "xor", "and"):
            a, b = sorted((a, b))
        return "%s(%s,%s)" % (x.op, a, b)
    if x is not None and x.op == "select":
        k, pol = cond_key(f, x.o[0])
        t = order_truth(f, rv, {peer}, x.o[0])
        if t is not None:
            a, b = role(f, x.o[1], rv, peer), role(f, x.o[2], rv, peer)
            return "sel(%s;%s)" % (a if t[0] else b, a if t[1] else b)
    if v[0] == "c":
        return "c%d" % v[1]
    return text(f, v, rv, peer)


def swapped(s):
    m = re.match(r"sel\((.*);(.*)\)$", s)
    if m:
        return "sel(%s;%s)" % (swapped(m.group(2)), swapped(m.group(1)))
    s = s.replace("ME", "\0").replace("PEER", "ME").replace("\0", "PEER")
    m = re.match(r"(add|mul|or|xor|and)\((.*),(.*)\)$", s)
    if m and "(" not in m.group(2) + m.group(3):
        s = "%s(%s,%s)" % ((m.group(1),) + tuple(sorted(m.groups()[1:])))
    return s


def p2p(P, R):
    rv = rankvals(P)
    for n, f in sorted(P.funcs.items()):
        S = [x for x in f.calls() if x.callee in SENDS]
        V = [x for x in f.calls() if x.callee == "MPI_Recv"]
        if not S or not V:
            continue
        exchange(P, R, f, rv, S, V)


def exchange(P, R, f, rv, S, V):
    n = f.name
    evs = []
    peers = {canon(f, x.o[3]) for x in S + V}
    loops = f.loops()
    for x in S + V:
        e = Op()
        e.x = x; e.send = x in S
        e.peer = canon(f, x.o[3])
        e.dt = ir.show(f, ir.expr(f, x.o[2], 4))
        e.count = text(f, x.o[1], rv, e.peer)
        e.buf = text(f, x.o[0], rv, e.peer)
        e.tag = role(f, x.o[4], rv, e.peer)
        e.loop = min((h for h, body in loops.items() if x.b in body and len(body) == max(len(b2) for b2 in loops.values() if x.b in b2)), default=None)
        e.when = [True, True]
        e.guards = []
        for a, s in f.all_control_deps(x.b):
            t = f.blocks[a][-1]
            if not t.o:
                continue
            if t.op == "switch":
                k, pol = (canon(f, t.o[0]), "eq", ("c", tuple(c for c, d in t.cases if d == s))), True
                if s == t.default and not any(d == s for c, d in t.cases):
                    pol = False
            else:
                ot = order_truth(f, rv, peers, t.o[0])
                if ot is not None:
                    taken = t.succ[0] == s
                    for q in (0, 1):
                        if ot[q] != taken:
                            e.when[q] = False
                    continue
                k, pol = cond_key(f, t.o[0])
                pol = pol == (t.succ[0] == s)
                if any(a in body and any(q not in body for q in f.succ[a]) for body in loops.values()):
                    continue            # loop conditions: shared
            e.guards.append((k, pol))
        evs.append(e)
    owncounts = {True: set(), False: set()}
    pl = Poly(f)
    for e in evs:
        owncounts[e.send] |= {v for v in cnt_atoms(f, e.x.o[1])}
    for e in evs:
        g = set()
        for k, pol in e.guards:
            if len(k) == 3 and k[2] in (("c", 0), ("null",)) and k[1] in ("eq", "sgt") and canon(f, k[0]) in owncounts[e.send]:
                if (k[1] == "eq") != pol:
                    g.add("own count")
                    continue
            if len(k) == 3:
                tx = "%s %s %s" % (re.sub(r"phi\d+", "phi", ir.show(f, ir.expr(f, k[0], 6))), k[1],
                                   ir.show(f, ir.expr(f, k[2], 4)) if not (k[2][0] == "c" and isinstance(k[2][1], tuple)) else k[2][1])
            else:
                tx = re.sub(r"phi\d+", "phi", ir.show(f, ir.expr(f, k, 6)))
            g.add(("" if pol else "not ") + tx)
        e.g = frozenset(x for x in g if x != "own count")
        e.own = "own count" in g
    L = [e for e in evs if e.when[0]]
    H = [e for e in evs if e.when[1]]
    L = inorder(f, L); H = inorder(f, H)

    def dualg(g):
        o = set()
        for t in g:
            for a, b in DUALS:
                t = t.replace(a, "\0").replace(b, a).replace("\0", b)
            o.add(t)
        return frozenset(o)

    def kd(e):
        return "%s of %s %s" % ("send" if e.send else "receive", e.count, e.dt)
    # same message on both sides
    for A, B, who, other in ((L, H, "lower", "higher"), (H, L, "higher", "lower")):
        used = set()
        for e in A:
            R.ob("same", f.file, sample="%s: %s when the rank is the %s one" % (n, kd(e), who))
            m = [d for d in B if d.send == e.send and d.dt == e.dt and d.g == e.g and d.loop == e.loop and id(d) not in used and d.count == e.count
                 and d.buf == e.buf and d.own == e.own]
            if m:
                used.add(id(m[0]))
            elif any(d.send == e.send and d.dt == e.dt and d.g == e.g and d.loop == e.loop for d in B):
                R.bad("same", "%s|%s|%s" % (n, "send" if e.send else "recv", e.dt), e.x.loc,
                      "%s: the %s of %s that the %s rank posts%s has no counterpart with the same buffer, number of values, datatype and condition when the rank is the %s one" % (
                          n, "send" if e.send else "receive", e.dt, who, gtext(e), other))
    # dual operations, tags and order
    matched = {}
    for A, B, who, other in ((L, H, "lower", "higher"), (H, L, "higher", "lower")):
        used = set()
        for e in A:
            R.ob("dual", f.file, sample="%s: %s" % (n, kd(e)))
            m = [d for d in B if d.send != e.send and d.dt == e.dt and d.g == dualg(e.g) and d.loop == e.loop and id(d) not in used and d.own == e.own]
            if not m:
                R.bad("dual", "%s|%s|%s" % (n, "send" if e.send else "recv", e.dt), e.x.loc,
                      "%s: the %s of %s posted by the %s rank of a pair%s has no %s of the partner under the dual condition: one of the two waits for ever" % (
                          n, "send" if e.send else "receive", e.dt, who, gtext(e), "receive" if e.send else "send"))
                continue
            d = m[0]
            used.add(id(d))
            if A is L:
                matched[id(e)] = d
            R.ob("tag", f.file, sample="%s: tag %s / %s" % (n, e.tag, d.tag))
            if e.send:
                R.ob("size", f.file, sample="%s: %s / %s" % (n, e.count, d.count))
                a, b = size(P, f, pl, e.x.o[1]), size(P, f, pl, d.x.o[1])
                if a is not None and b is not None and (a[0] > b[0] or len(a[1]) > len(b[1])):
                    R.bad("size", "%s|%s" % (n, e.dt), e.x.loc, "%s: %s values are sent (%s per entity) where %s are received (%s per entity, line %d)" % (
                        n, e.count, sz(f, a), d.count, sz(f, b), d.x.line))
            if swapped(e.tag) != d.tag:
                R.bad("tag", "%s|%s" % (n, "send" if e.send else "recv"), e.x.loc, "%s: %s with tag %s but the partner's %s (line %d) uses tag %s (rank of the partner = PEER)" % (
                    n, kd(e), e.tag, "receive" if e.send else "send", d.x.line, d.tag))
    for i, a in enumerate(L):
        for b in L[i + 1:]:
            if id(a) not in matched or id(b) not in matched or exclusive(f, a.x, b.x):
                continue
            da, db = matched[id(a)], matched[id(b)]
            if da in H and db in H and H.index(da) > H.index(db) and not exclusive(f, da.x, db.x):
                R.bad("dual", "order|%s" % n, a.x.loc, "%s: the lower rank posts the %s (line %d) before the %s (line %d), but the higher rank posts its partner operations in the opposite order" % (
                    n, kd(a), a.x.line, kd(b), b.x.line))
    # somebody must receive first
    for e in evs:
        if e.when[0] and e.when[1] and e.send:
            R.bad("dual", "unordered|%s" % n, e.x.loc, "%s: the blocking send is posted by the lower and by the higher rank of a pair alike, before either receives" % n)


def size(P, f, pl, v):
    """number of values per entity: constant factor and the factors that are the same on all processes"""
    p = pl.of(v)
    if len(p) != 1:
        return None
    (mono, c), = p.items()
    fac = []
    for a in mono:
        y = f.get(a)
        if y is not None and y.op == "sdiv":
            return None
        if y is not None and y.op == "call" and (P.targets(y)[:1] or [y.callee])[0] in ("MAttrib_Get_NumComps",):
            fac.append("MAttrib_Get_NumComps")
    return (c, tuple(sorted(fac)), len(mono) == len(fac))


def sz(f, a):
    return "*".join([str(a[0])] + list(a[1])) + ("" if not a[2] else ", a fixed number")


def gtext(e):
    return " (when %s)" % " and ".join(sorted(e.g)) if e.g else ""


def cnt_atoms(f, v, depth=5):
    out = {canon(f, v)}
    x = f.get(strip(f, v))
    if x is not None and x.op in ("mul", "add", "shl", "sext", "zext") and depth:
        for o in x.o:
            if o[0] != "c":
                out |= cnt_atoms(f, o, depth - 1)
    return out


def inorder(f, es):
    xs = f.ordered([e.x for e in es])
    m = {e.x.i: e for e in es}
    return [m[x.i] for x in xs]


def exclusive(f, a, b):
    """never both executed in one iteration"""
    if a.b == b.b:
        return False
    # forward reachability without passing a loop header again
    heads = set(f.loops())
    return not fwd(f, a.b, b.b, heads) and not fwd(f, b.b, a.b, heads)


def fwd(f, a, b, heads):
    seen, st = {a}, [a]
    while st:
        q = st.pop()
        for s in f.succ[q]:
            if s == b:
                return True
            if s not in seen and not (s in heads and s in f.dom[q]):
                seen.add(s); st.append(s)
    return False
