"""Which functions change mesh state (transitively), per representation."""
import re
import ir, summ
from ir import strip

REPS = ["F1", "F4", "R1", "R2", "R4"]
LISTMUT = {"List_Add", "List_ChknAdd", "List_Insert", "List_Inserti", "List_Rem", "List_RemSorted", "List_Remi", "List_Replace", "List_Replacei",
           "List_Cat", "List_Sort", "List_Clear", "List_Delete", "List_Compress"}
FRESHC = {"malloc", "calloc", "realloc", "strdup", "List_New", "List_Copy"}
ENT = re.compile(r"^(struct )?(M(Vertex|Edge|Face|Region|Entity|Set|Attrib|esh)(_ptr)?\b|Mesh_ptr|List_ptr|MAttrib_ptr|MSet_ptr|Hash_ptr)")
EXTMUT = {"free": [0], "memcpy": [0], "memset": [0], "qsort": [0], "strcpy": [0], "strcat": [0], "strncpy": [0], "sprintf": [0], "realloc": [0], "memmove": [0]}


class Mut:
    def __init__(self, P, rep, fresh):
        self.P, self.rep, self.fresh = P, rep, fresh
        self.sum = {}
        self.why = {}
        self._run()

    def targets(self, x):
        if x.callee:
            return [x.callee]
        t = self.P.table_of(x)
        if t and t.endswith("_jmp"):
            e = self.P.globals[t]["init"][1][REPS.index(self.rep)]
            return [e[1]] if e[0] == "fn" else []
        return []

    def cls(self, f, v, seen=None):
        """classes of a pointer: 'L' local/fresh, ('p', i) parameter itself, 'M' anything else"""
        out = set()
        seen = set() if seen is None else seen
        for o in summ.origins(f, v):
            if o in seen:
                continue
            seen.add(o)
            if o[0] == "a":
                out.add(("p", o[1])); continue
            if o[0] in ("null", "c", "s", "undef"):
                continue
            x = f.get(o)
            if x is None:
                out.add("M" if o[0] in ("g", "gc") else "L"); continue
            if x.op == "alloca":
                out.add("L")
            elif x.op == "getelementptr":
                out |= self.cls(f, x.o[0], seen)
            elif x.op == "call":
                ts = self.targets(x)
                out.add("L" if ts and all(t in self.fresh or t in FRESHC for t in ts) else "M")
            elif x.op == "load":
                out |= self.cls_load(f, x, seen)
            else:
                out.add("M")
        return out

    def cls_load(self, f, x, seen):
        """pointer loaded from memory: from a local variable, what was stored there"""
        b = strip(f, x.o[0])
        a = f.get(b)
        if a is not None and a.op == "alloca":
            r = set()
            for u in f.uses.get(b, ()):
                if u.op == "store" and u.o[1] == b:
                    if strip(f, u.o[0]) != ("i", x.i) and u.o[0][0] != "null":
                        y = f.get(strip(f, u.o[0]))
                        if y is not None and y.op == "load" and strip(f, y.o[0]) == b:
                            continue
                        if y is not None and y.op == "phi":
                            r.add("M"); continue
                        r |= self.cls(f, u.o[0], seen)
            return r
        return {"M"}

    def _local(self, f):
        m = {}
        def add(c, x):
            for k in c:
                if k != "L" and k not in m:
                    m[k] = (x.line, x.callee or x.op)
        for x in f.instrs():
            if x.op == "store":
                add(self.cls(f, x.o[1]), x)
            elif x.op == "call":
                c = x.callee or ""
                if c.startswith(("llvm.mem", "__mem")):
                    add(self.cls(f, x.o[0]), x)
                if c in LISTMUT:
                    add(self.cls(f, x.o[0]), x)
                elif c in EXTMUT:
                    for i in EXTMUT[c]:
                        add(self.cls(f, x.o[i]), x)
        return m

    def _run(self):
        P = self.P
        for n, f in P.funcs.items():
            if n in LISTMUT or f.file.endswith("util/List.c"):
                self.sum[n] = {("p", 0): (0, "list")} if n in LISTMUT else ({("p", 1): (0, "cursor")} if n.startswith("List_Next") else {})
            elif n in ("MSTK_Report",):
                self.sum[n] = {}
            else:
                self.sum[n] = self._local(f)
        calls = {}
        for n, f in P.funcs.items():
            if f.file.endswith("util/List.c") or n == "MSTK_Report":
                continue
            calls[n] = [(x, self.targets(x)) for x in f.instrs() if x.op == "call" and x.callee not in LISTMUT]
        ch = True
        while ch:
            ch = False
            for n, cs in calls.items():
                s = self.sum[n]
                f = P.funcs[n]
                for x, ts in cs:
                    for t in ts:
                        for k in list(self.sum.get(t, ())):
                            if k == "M":
                                new = {"M"}
                            else:
                                new = self.cls(f, x.o[k[1]]) if k[1] < len(x.o) else {"M"}
                            for c in new:
                                if c != "L" and c not in s:
                                    s[c] = (x.line, t); ch = True

    def impure(self, n):
        """reason why n changes state other than through output parameters, or None"""
        f = self.P.funcs[n]
        for k, why in self.sum[n].items():
            if k == "M":
                return why, "mesh state"
            if k[0] == "p":
                ty = f.dargs[k[1]] if k[1] < len(f.dargs) else ""
                if ENT.match(ty or "") and not (ty or "").rstrip().endswith("*"):
                    return why, "argument %s" % f.args[k[1]]
        return None

    def chain(self, n, depth=6):
        """call path to the mutating construct"""
        out = []
        while depth:
            depth -= 1
            r = self.impure(n) if n in self.sum else None
            if not r:
                break
            (line, t), what = r
            out.append("%s:%d" % (n, line))
            if t not in self.sum or t in LISTMUT or t == n:
                out.append(t)
                break
            n = t
        return " -> ".join(out)
