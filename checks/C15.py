"""C15: objects release what they own."""
import os
import re
import build
import core, own, ownlists, summ, ir
from ir import canon, strip, cond_key
from walk import walk, STOP
from own import Undecided
import C11

ALLOC = {"malloc", "calloc", "realloc", "strdup"}
ENT = {"V": "%MVertex", "E": "%MEdge", "F": "%MFace", "R": "%MRegion"}
ENTS = set(ENT.values()) | {"%MEntity"}
PTYPE = re.compile(r"^(?:struct )?_?(\w+?)(?:_ptr|\*| \*)$")


RULES = {
    "delete": "before an object (mesh, entity, adjacency record, set, attribute, attribute value, list, hash table) is released, every field in which the library "
              "stores memory of its own has been released, or is null, on every path",
    "replace": "a store to such a field loses nothing: what it held was released or is null, the object is new, or the value stored is the old content, moved or extended",
    "dangling": "content of a field that was released is replaced (or the object released) before the routine, or the routine it works for, returns",
    "destructor": "a list is released with List_Delete, not free",
    "element": "before a mesh, an entity or a region of R1/R2 is released, so are the entities, attributes, sets, attribute values and templates in its containers",
}
EXPLAIN = ("Owning fields are derived from the code: every field of a library structure, or of an adjacency record of a representation, in which freshly acquired memory "
           "is stored. Every call that releases an object is an obligation per owning field: all paths from the object's definition to it are followed "
           "(callees and dispatch tables by must-summaries, per representation, with constant arguments such as keep=0 propagated). Every store to an owning "
           "field, and every release of its content, is followed in the same way.")
ASSUME = ["MESH_InitFromFile, MESH_SetRepTypeIni and MEnt_Init_CmnData are applied to new objects; the representation of an entity is set once",
          "entities of reduced representations are all in the hash table of the mesh (Hash_Delete releases them)",
          "memory that two fields always get together (rfaces/fdirs) is present in both or in none"]
CONFIGS = ["default"]
CONFIGS_THOROUGH = ["default", "markers", "serial"]
MIN = {"delete": 50, "element": 8, "replace": 100, "dangling": 80, "destructor": 250}


class Cells:
    """memory cells of library objects: (base value, cell); cell is (struct, field), or (kind, rep, offset) in an adjacency record"""

    def __init__(self, P):
        self.P = P
        self.K = C11.Kinds(P)
        self.st = {}
        self.heap = ownlists.heap_spec(P).effect
        self.list = ownlists.list_spec(P).effect
        self.fresh = summ.fresh_functions(P, ALLOC | {"List_New", "List_Copy", "Hash_New"})
        self.memo = {}
        self.allocs = self.stores()

    def structs(self, f):
        """base -> struct, from the fields accessed"""
        if f.name not in self.st:
            d = {}
            for x in f.instrs():
                if x.op == "getelementptr":
                    p = [q for q in x.path if q[0] == "f"]
                    if p:
                        d.setdefault(canon(f, x.o[0]), p[0][1])
            for i, t in enumerate(f.dargs):
                m = PTYPE.match(str(self.K.decl(f, i)))
                if m:
                    d.setdefault(("a", i), "%" + m.group(1))
            self.st[f.name] = d
        return self.st[f.name]

    def struct(self, f, v):
        v = canon(f, v)
        s = self.structs(f).get(v)
        if s is None or s == "%MEntity":
            k = self.K.kind(f, v)
            if k and len(k) == 1:
                return ENT.get(next(iter(k)), s)
        return s

    def ref(self, f, a):
        """(base, cells) of an address"""
        v = canon(f, a)
        g = f.get(v)
        fl = []
        while g is not None and g.op == "getelementptr":
            q = [p for p in g.path if p[0] == "f"]
            if any(p[0] == "x" and p[1] != ("c", 0) for p in g.path):
                return None
            fl = q + fl
            v = canon(f, g.o[0]); g = f.get(v)
        k = self.K.owner(f, v)
        if k:
            rp = C11.reps(f.name)
            if not rp:
                return None
            ad = self.K.addr(f, a)
            for o in summ.origins(f, v):
                y = f.get(o)
                if y.op == "load":
                    gg = f.get(canon(f, y.o[0]))
                    return canon(f, gg.o[0]), frozenset((k, r, ad[2]) for r in rp)
                for u in f.uses.get(o, ()):
                    if u.op == "store" and strip(f, u.o[0]) == o:
                        gg = f.get(canon(f, u.o[1]))
                        if gg is not None and gg.op == "getelementptr":
                            return canon(f, gg.o[0]), frozenset((k, r, ad[2]) for r in rp)
            return None
        if fl:
            s, n = fl[-1][1], fl[-1][2]
            if len(fl) == 1:
                s = self.struct(f, v) or s if s == "%MEntity" else s
            return v, frozenset([(s, n)])
        s = self.struct(f, v)
        if s and self.P.structs.get(s.lstrip("%")):
            return v, frozenset([(s, self.P.structs[s.lstrip("%")][0][1])])
        return None

    def content(self, f, v):
        """[(base, cells)] a value can be loaded from"""
        out = []
        for o in summ.origins(f, v):
            x = f.get(o)
            if x is not None and x.op == "load":
                r = self.ref(f, x.o[0])
                if r:
                    out.append(r)
        return out

    def stores(self):
        """cell -> places that store fresh memory in it"""
        out = {}
        for n, f in self.P.funcs.items():
            for x in f.instrs():
                if x.op != "store" or x.at != "ptr":
                    continue
                for o in summ.origins(f, x.o[0]):
                    y = f.get(o)
                    if y is not None and y.op == "call" and any(t in self.fresh for t in self.P.targets(y)):
                        r = self.ref(f, x.o[1])
                        for c in r[1] if r else ():
                            out.setdefault(c, []).append((f, x))
        return out



class Release:
    """is a cell of an object released on every path"""

    def __init__(self, C):
        self.C, self.P = C, C.P
        self.memo = {}
        self.lf = ownlists.list_fresh(self.P)
        with open(os.path.join(build.REPO, "include", "MSTK.h")) as h:
            self.api = set(re.findall(r"(\w+)\s*\(", h.read()))

    def is_list(self, cell):
        """lists are stored in the cell"""
        for f, x in self.C.allocs.get(cell, ()):
            for o in summ.origins(f, x.o[0]):
                y = f.get(o)
                if y is not None and y.op == "call" and any(t in self.lf for t in self.P.targets(y)):
                    return True
        return False

    def is_content(self, f, v, base, cell):
        return any(b == base and cell in cs for b, cs in self.C.content(f, v))

    def released_by(self, f, x, base, cell, assume):
        """does call x release the cell on all of its paths"""
        C = self.C
        for ai, a in enumerate(x.o):
            if x.callee and self.is_content(f, a, base, cell):
                if C.heap(x, ai) == "release" or C.list(x, ai) == "release" or self.frees(x, ai):
                    return True
            if canon(f, a) == base or strip(f, a) == base:
                ts = [t for t in self.P.targets(x) if t in self.P.funcs]
                ts = [t for t in ts if self.concerns(t, cell)]
                if not ts:
                    continue
                asm = {}
                for j, b in enumerate(x.o):
                    b = strip(f, b)
                    if b[0] == "c":
                        asm[j] = b[1]
                    elif b[0] == "a" and b[1] in assume:
                        asm[j] = assume[b[1]]
                if all(self.must(t, ai, cell, asm) for t in ts):
                    return True
        return False

    def concerns(self, t, cell):
        """representations: does the cell exist in those that t is written for"""
        rp = C11.reps(t)
        if not rp:
            return True
        if len(cell) == 3:
            return cell[1] in rp
        if cell[1] == "adj":
            return any(C11.reps(f.name) & rp for f, _ in self.C.allocs.get(cell, ()) if C11.reps(f.name))
        return True

    def frees(self, x, ai):
        """the callee releases the object passed (destructors of library objects: Hash_Delete, MSet_Delete, ...)"""
        ts = [self.P.funcs.get(t) for t in self.P.targets(x)]
        return bool(ts) and all(g is not None and self.frees_arg(g, ai) for g in ts)

    def frees_arg(self, g, ai):
        key = (g.name, ai)
        if key not in self.memo:
            self.memo[key] = False
            for y in g.calls():
                for k, a in enumerate(y.o):
                    if canon(g, a) == ("a", ai) and (y.callee == "free" and k == 0 or y.callee and y.callee != g.name and self.frees(y, k)):
                        self.memo[key] = True
        return self.memo[key]

    def must(self, fn, ai, cell, assume):
        key = (fn, ai, cell, tuple(sorted(assume.items())))
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = False
        f = self.P.funcs[fn]
        bad = self.run(f, ("a", ai), cell, assume, None)
        self.memo[key] = not bad
        return not bad

    def run(self, f, base, cell, assume, site, elems=False):
        """paths from the definition of base to site (or return) on which the cell is neither released nor null"""
        bad = []
        done = "ok"
        memo = {}
        tag = self.tags(cell)
        pair = self.companions(cell)

        def step(x, st):
            if x is site:
                if st != done:
                    bad.append(x)
                return STOP
            if x.op == "ret":
                if site is None and st != done:
                    bad.append(x)
                return STOP
            if x.op == "call" and st != done:
                if x.i not in memo:
                    memo[x.i] = self.elem_by(f, x, base, cell, assume) if elems else self.released_by(f, x, base, cell, assume)
                if memo[x.i]:
                    return done
            return st

        def edge(k, val, st):
            if len(k) == 3 and k[1] == "eq":
                if k[0][0] == "a" and k[0][1] in assume and k[2][0] == "c":
                    if (assume[k[0][1]] == k[2][1]) != val:
                        return STOP
                if k[2] in (("null",), ("c", 0)) and val and k[0][0] in "ai":
                    if k[0] == base:
                        return STOP
                    for b, cs in self.C.content(f, k[0]):
                        if b == base and (cell in cs or cs & pair or len(cell) == 3 and any(c[1:] == ("adj",) for c in cs)):
                            return done
                if tag and not val and st != done and k[2][0] == "c":
                    y = f.get(k[0])
                    if y is not None and y.op == "call" and (y.callee, k[2][1]) in tag:
                        st = frozenset(st if st != "held" else ()) | {(y.callee, k[2][1])}
                        if st >= tag:
                            return done
            return st

        def enter(b, prev, st):
            # a loop that releases the elements of the container
            if elems and st != done and b in heads:
                return done
            return st
        heads = set()
        if elems:
            for h, body in f.loops().items():
                latches = [b for b in body if h in f.succ[b]]
                if any(x.op == "call" and all(x.b in f.dom[l] for l in latches) and self.elem_by(f, x, base, cell, assume)
                       for b in body for x in f.blocks[b]):
                    heads.add(h)
        d = f.get(base)
        start = (d.b, d.pos + 1) if d is not None else (0, 0)
        walk(f, start, "held", step, edge=edge, enter=enter)
        return bad

    def tags(self, cell):
        """(function, value): memory is stored in the cell only where the function returned one of these values"""
        if ("tags", cell) not in self.memo:
            out = set()
            for f, x in self.C.allocs.get(cell, ()):
                t = {(f.get(k[0]).callee, k[2][1]) for k, v in dict(own.dominating_facts(f, x.b)).items()
                     if v and len(k) == 3 and k[1] == "eq" and k[2][0] == "c" and f.get(k[0]) is not None and f.get(k[0]).op == "call"}
                if not t:
                    out = set(); break
                out |= t
            self.memo[("tags", cell)] = frozenset(out)
        return self.memo[("tags", cell)]

    def companions(self, cell):
        """cells that are given memory wherever this one is: when one of them is null, this one is"""
        if ("pair", cell) not in self.memo:
            out = None
            for f, x in self.C.allocs.get(cell, ()):
                if all((y := f.get(o)) is not None and y.op == "call" and y.callee == "realloc" for o in summ.origins(f, x.o[0])):
                    continue
                here = {c for c, v in self.C.allocs.items() if c != cell and any(g is f for g, _ in v)}
                out = here if out is None else out & here
            self.memo[("pair", cell)] = frozenset(out or ())
        return self.memo[("pair", cell)]

    def elem_by(self, f, x, base, cell, assume):
        """call x releases an element of the container in the cell, or calls a routine that releases all of them"""
        for ai, a in enumerate(x.o):
            if self.frees(x, ai) or x.callee == "free" or self.C.heap(x, ai) == "release":
                for o in summ.origins(f, a):
                    y = f.get(o)
                    if y is None:
                        continue
                    if y.op == "call" and y.callee in ("List_Next_Entry", "List_Entry") and self.is_content(f, y.o[0], base, cell):
                        return True
                    if y.op == "load":
                        g = f.get(canon(f, y.o[0]))
                        if g is not None and g.op == "getelementptr" and self.is_content(f, g.o[0], base, cell):
                            return True
                alt = HASHED.get(cell)
                if alt and self.is_content(f, a, base, alt):
                    return True
            if (canon(f, a) == base) and x.callee:
                ts = [t for t in self.P.targets(x) if t in self.P.funcs and self.concerns(t, cell)]
                if ts and all(self.must_elem(t, ai, cell) for t in ts):
                    return True
        return False

    def must_elem(self, t, ai, cell):
        key = (t, ai, cell, "elem")
        if key not in self.memo:
            self.memo[key] = False
            self.memo[key] = not self.run(self.P.funcs[t], ("a", ai), cell, {}, None, elems=True)
        return self.memo[key]

    # what happens to the old content of a cell at a store to it
    def overwritten(self, f, x):
        """None when the store cannot lose what the cell owned, else the cell"""
        r = self.C.ref(f, x.o[1])
        if not r:
            return None
        base, cells = r
        cells = [c for c in cells if c in self.C.allocs]
        if not cells:
            return None
        bad = []
        for c in cells:
            if self.lost(f, x, base, c):
                bad.append(c)
        return bad

    def fills(self, t, cell):
        """does the constructor t put something into the cell of the object it returns?"""
        f = self.P.funcs.get(t)
        key = ("fills", t, cell)
        if f is None or not any(r.o for r in f.rets()):
            return False
        if key not in self.memo:
            self.memo[key] = False
            new = set().union(*[summ.origins(f, r.o[0]) for r in f.rets() if r.o])
            for x in f.instrs():
                if x.op == "store" and x.at == "ptr" and x.o[0] != ("null",) and x.o[0][0] != "null":
                    q = self.C.ref(f, x.o[1])
                    if q and cell in q[1] and q[0] in new:
                        self.memo[key] = True
        return self.memo[key]

    def newobj(self, f, base, cell=None):
        """the object was made in this routine, or by every caller of it just before (and holds nothing in the cell yet)"""
        if base[0] == "a":
            key = ("new", f.name, base[1], cell)
            if key not in self.memo:
                self.memo[key] = False
                ys = self.sites(f.name)
                self.memo[key] = bool(ys) and all(base[1] < len(y.o) and self.newobj(y.f, canon(y.f, y.o[base[1]]), cell) for y in ys)
            return self.memo[key]
        for o in summ.origins(f, base):
            y = f.get(o)
            if y is not None and (y.op == "alloca" or y.op == "call" and any(t in self.C.fresh for t in self.P.targets(y))):
                if cell is not None and y.op == "call" and any(self.fills(t, cell) for t in self.P.targets(y)):
                    continue
                return True
        return False

    def lost(self, f, x, base, cell):
        d = f.get(base)
        tag = self.tags(cell)
        if tag:
            fns = {t for t, _ in tag}
            for k, v in dict(own.dominating_facts(f, x.b)).items():
                y = f.get(k[0]) if len(k) == 3 else None
                if v and y is not None and y.op == "call" and y.callee in fns and k[1] == "eq" and (y.callee, k[2][1]) not in tag:
                    return False             # the cell holds something else for this value of its tag
        if cell[1] == "adj" or self.newobj(f, base, cell):
            return False
        if len(cell) == 3:
            # a new adjacency record
            for g, y in self.C.allocs.get((ENT[cell[0]], "adj"), ()):
                if g is f and f.dominates(y, x) and (q := self.C.ref(f, y.o[1])) and q[0] == base:
                    return False
        # the new value is the old one, moved or extended
        new = {o for o in summ.origins(f, x.o[0])}
        for o in new:
            y = f.get(o)
            if y is None:
                continue
            if self.is_content(f, o, base, cell):
                return False
            if y.op == "call" and (y.callee == "realloc" or y.callee in ownlists.RA) and y.o and self.is_content(f, y.o[0], base, cell):
                return False
        saved = [u for u in f.instrs() if u.op == "load" and (q := self.C.ref(f, u.o[0])) and q[0] == base and cell in q[1]]
        bad = []
        memo = {}
        pair = self.companions(cell)

        def step(y, st):
            if y is x:
                if st != "ok":
                    bad.append(y)
                return STOP
            if y.op == "ret":
                return STOP
            if st != "ok":
                if y.op == "call":
                    if y.i not in memo:
                        memo[y.i] = self.released_by(f, y, base, cell, {})
                    if memo[y.i]:
                        return "ok"
                elif y.op == "store" and y.at == "ptr":
                    q = self.C.ref(f, y.o[1])
                    if q and q[0] == base and cell in q[1]:
                        return STOP          # judged there
            return st

        def edge(k, val, st):
            if len(k) == 3 and k[1] == "eq" and k[2] in (("null",), ("c", 0)) and val and any(b == base and (cell in cs or cs & pair) for b, cs in self.C.content(f, k[0])):
                return "ok"
            return st
        start = (d.b, d.pos + 1) if d is not None else (0, 0)
        walk(f, start, "held", step, edge=edge)
        if not bad:
            return False
        # released afterwards through a value loaded before
        return True

    def dangling(self, f, x, base, cell, assume, depth=0):
        """after the content of the cell is released by x: does the cell keep it when the routine (or its caller) returns, or is it read before;
        the return or the load, or None"""
        bad, again = [], []
        d = f.get(base)

        def step(y, st):
            if y is d:
                return STOP                  # another object
            if y.op == "store" and y.at == "ptr":
                q = self.C.ref(f, y.o[1])
                if q and q[0] == base and (cell in q[1] or any(c[1:] == ("adj",) for c in q[1])):
                    return STOP
            elif y.op == "load":
                q = self.C.ref(f, y.o[0])
                if q and q[0] == base and cell in q[1]:
                    again.append(y)
                    return STOP
            elif y.op == "call" and y is not x:
                if any(self.is_content(f, a, base, cell) for a in y.o) and not (y.callee or "").startswith("llvm."):
                    again.append(y)
                    return STOP
                for ai, a in enumerate(y.o):
                    if canon(f, a) == base and (y.callee == "free" or self.frees(y, ai)):
                        return STOP
                    if len(cell) == 3 and y.callee == "free" and any(b == base and any(c[1:] == ("adj",) for c in cs) for b, cs in self.C.content(f, a)):
                        return STOP
            elif y.op == "ret":
                bad.append(y)
                return STOP
            return st

        def edge(k, val, st):
            if len(k) == 3 and k[1] == "eq" and k[0][0] == "a" and k[0][1] in assume and k[2][0] == "c":
                if (assume[k[0][1]] == k[2][1]) != val:
                    return STOP
            return st
        walk(f, (x.b, x.pos + 1), "dangling", step, edge=edge)
        if again:
            return again[0]
        if not bad:
            return None
        if base[0] == "a" and depth < 4 and f.name not in self.api:
            sites = [y for y in self.sites(f.name)]
            if sites:
                for y in sites:
                    g = y.f
                    asm = {strip(g, y.o[j])[1]: c for j, c in assume.items() if j < len(y.o) and strip(g, y.o[j])[0] == "a"}
                    if any(strip(g, y.o[j])[0] == "c" and strip(g, y.o[j])[1] != c for j, c in assume.items() if j < len(y.o)):
                        continue
                    r = self.dangling(g, y, canon(g, y.o[base[1]]), cell, asm, depth + 1)
                    if r is not None:
                        return r
                return None
        return bad[0]

    def sites(self, n):
        if not hasattr(self, "_sites"):
            self._sites = {}
            for f in self.P.funcs.values():
                for y in f.calls():
                    for t in self.P.targets(y):
                        self._sites.setdefault(t, []).append(y)
        return self._sites.get(n, ())


HASHED = {("%Mesh", "mface"): ("%Mesh", "hface"), ("%Mesh", "medge"): ("%Mesh", "hedge")}
CONTAINERS = {("%Mesh", n) for n in ("mvertex", "medge", "mface", "mregion", "AttribList", "MSetList")} | {("%MEntity_Data", "AttInsList")} | \
    {("R", "R1", 64), ("R", "R2", 64)}


def run(P, R):
    C = Cells(P)
    rel = Release(C)
    sites = []
    for n, f in sorted(P.funcs.items()):
        for x in f.calls("free"):
            cs = C.content(f, x.o[0])
            rec = [(b, c) for b, cc in cs for c in cc if c[1] == "adj"]
            if rec:
                b, c = rec[0]
                k = {v: u for u, v in ENT.items()}.get(c[0])
                rp = C11.reps(n)
                if k and rp:
                    own_ = {q for q in C.allocs if len(q) == 3 and q[0] == k and q[1] in rp}
                    sites.append((n, x, b, own_, "adjacency record of %s" % c[0][1:]))
                continue
            s = C.struct(f, x.o[0])
            if s and not cs:
                own_ = {q for q in C.allocs if len(q) == 2 and (q[0] == s or q[0] == "%MEntity_Data" and s in ENTS)}
                if own_:
                    sites.append((n, x, canon(f, x.o[0]), own_, s[1:]))
    items = [(n, x.i, b, sorted(o, key=str), w) for n, x, b, o, w in sites]

    def one(it):
        n, i, b, own_, w = it
        f = P.funcs[n]; x = f.ins[i]
        asm = {}
        from own import dominating_facts
        for k, val in dict(dominating_facts(f, x.b)).items():
            if len(k) == 3 and k[0][0] == "a" and k[1] == "eq" and k[2][0] == "c" and val:
                asm[k[0][1]] = k[2][1]
        out = []
        for c in own_:
            for el in ((False, True) if c in CONTAINERS else (False,)):
                try:
                    out.append((c, el, bool(rel.run(f, b, c, asm, x, elems=el))))
                except Undecided:
                    out.append((c, el, None))
        return out
    for (n, i, b, own_, w), res in zip(items, core.parallel(items, one)):
        f = P.funcs[n]; x = f.ins[i]
        for c, el, bad in res:
            nm = "/".join(map(str, c)).replace("%", "")
            rule = "element" if el else "delete"
            R.ob(rule, f.file, sample="%s: %s" % (n, nm))
            if bad is None:
                R.undec(rule, "%s: %s" % (n, nm))
            elif bad:
                R.bad(rule, "%s|%s" % (n, nm), x.loc, "%s releases a %s without releasing %s %s" % (n, w, "the elements of" if el else "", nm))

    for n, f in sorted(P.funcs.items()):
        for x in f.instrs():
            if x.op == "store" and x.at == "ptr":
                q = C.ref(f, x.o[1])
                cs = [c for c in q[1] if c in C.allocs] if q else ()
                if not cs or n in ONCE:
                    continue
                R.ob("replace", f.file, sample="%s: line %d" % (n, x.line))
                try:
                    bad = rel.overwritten(f, x)
                except Undecided:
                    R.undec("replace", "%s: line %d" % (n, x.line)); continue
                if bad:
                    c = "/".join(map(str, sorted(bad, key=str)[0])).replace("%", "")
                    R.bad("replace", "%s|%s" % (n, c), x.loc, "%s stores in %s without releasing what it holds" % (n, c))
            elif x.op == "call":
                for ai, a in enumerate(x.o):
                    if a[0] not in "ia" or not (x.callee == "free" or rel.frees(x, ai) or C.list(x, ai) == "release"):
                        continue
                    con = C.content(f, a)
                    if x.callee == "free":
                        lists = [c for _, cs in con for c in cs if c in C.allocs and rel.is_list(c)] or (
                            [o for o in summ.origins(f, a) if (y := f.get(o)) is not None and y.op == "call" and any(t in rel.lf for t in P.targets(y))])
                        R.ob("destructor", f.file)
                        if lists and f.file.split("/")[-1] != "List.c":
                            R.bad("destructor", "%s|free" % n, x.loc, "%s: a list is released with free: what it owns stays" % n)
                    for b, cs in con:
                        cs = [c for c in cs if c in C.allocs]
                        d = f.get(b)
                        if not cs or d is not None and d.op == "alloca":
                            continue
                        c = cs[0]
                        R.ob("dangling", f.file, sample="%s: line %d" % (n, x.line))
                        asm = {k[0][1]: k[2][1] for k, v in dict(own.dominating_facts(f, x.b)).items()
                               if len(k) == 3 and k[0][0] == "a" and k[1] == "eq" and k[2][0] == "c" and v}
                        try:
                            r = rel.dangling(f, x, b, c, asm)
                        except Undecided:
                            R.undec("dangling", "%s: line %d" % (n, x.line)); continue
                        if r is not None and C11.reps(r.f.name) is None:
                            nm = "/".join(map(str, c)).replace("%", "")
                            R.bad("dangling", "%s|%s" % (n, nm), x.loc, ("%s releases %s, which the object still holds when %s returns (line %d)" if r.op == "ret" else
                                "%s releases %s, which %s then reads (line %d)") % (n, nm, r.f.name, r.line))


ONCE = {"MESH_InitFromFile", "MESH_SetRepTypeIni", "MEnt_Init_CmnData"}
