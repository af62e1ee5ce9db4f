"""Every representation is served by its own implementation."""
import re
import ir
from core import Broken
from ir import expr, strip, canon, show
REPS = ["F1", "F4", "R1", "R2", "R4"]
SUF = {"F1": "F1", "F4": "F4", "R1": "R1", "R2": "R2", "R4": "R4", "F1F3": "F1", "F2F4": "F4", "F1F4": "F1 F4", "FN": "F1 F4", "R1R2": "R1 R2",
       "R3R4": "R4", "RN": "R1 R2 R4", "R1R2R4": "R1 R2 R4", "FNR3R4": "F1 F4 R4", "F1F3R3R4": "F1 R4", "F2": "F2", "F3": "F3", "R3": "R3"}
# operations that mean nothing for a representation (nothing to lock, nothing stored)
DUMMY = {
    ("ME_Destroy_For_MESH_Delete", "R1"), ("ME_Destroy_For_MESH_Delete", "R2"), ("ME_Destroy_For_MESH_Delete", "R4"),
    ("ME_Lock", "F1"), ("ME_Lock", "F4"), ("ME_UnLock", "F1"), ("ME_UnLock", "F4"),
    ("ME_Restore", "R1"), ("ME_Restore", "R2"), ("ME_Restore", "R4"),
    ("MF_Add_Region", "R1"), ("MF_Add_Region", "R2"),
    ("MF_Lock", "F1"), ("MF_Lock", "F4"), ("MF_Lock", "R4"), ("MF_UnLock", "F1"), ("MF_UnLock", "F4"), ("MF_UnLock", "R4"),
    ("MF_Restore", "R1"), ("MF_Restore", "R2"),
}
# public functions that dispatch to another operation's table: caller -> tables
OTHER = {"MF_UsesEntity": {"MF_UsesEdge", "MF_UsesVertex"}, "MR_UsesEntity": {"MR_UsesFace", "MR_UsesEdge", "MR_UsesVertex"},
         "MV_Num_AdjVertices": {"MV_Num_Edges"}, "MESH_AddGhost": {"MESH_Vol_AddGhost", "MESH_Surf_AddGhost"},
         "MESH_Partition": {"MESH_Vol_Partition", "MESH_Surf_Partition"}}
RULES = {
    "entry": "slot r of an operation's dispatch table holds an implementation of that operation for representation r",
    "dispatch": "the public operation selects the slot with the representation of the entity or mesh it was given, passes its arguments "
                "unchanged and in order, and returns the implementation's result",
    "family": "an implementation for representation r calls only implementations that serve r",
    "layout": "an implementation for representation r accesses the adjacency record only through fields that the record allocated for r has "
              "at that offset with that type",
    "init": "every pointer and count of a newly allocated adjacency record that some operation of the representation reads is set when the record is created",
}
EXPLAIN = ("The initialisers of all *_jmp tables, all indirect calls through them, all direct calls between representation-specific "
           "functions and all field accesses to adjacency records are enumerated from the IR.")
ASSUME = ["a representation-specific function is recognised by the suffix of its name; functions without such a suffix are common to all representations"]
CONFIGS = ["default"]
CONFIGS_THOROUGH = ["default", "markers", "serial"]
MIN = {"entry": 300, "dispatch": 80, "family": 100, "layout": 80}


def reps_of(name):
    """(operation, set of representations) of a function name, or (name, None)"""
    m = re.match(r"^(.*)_((?:F1F3R3R4|FNR3R4|R1R2R4|F1F3|F2F4|F1F4|R1R2|R3R4|FN|RN|F1|F2|F3|F4|R1|R2|R3|R4))$", name)
    if not m or m.group(2) not in SUF:
        return name, None
    return m.group(1), set(SUF[m.group(2)].split())


def is_rep_of(f, e, depth=0):
    """expression e is the representation type of something given to f"""
    if e[0] == "call" and e[1] in ("MEnt_RepType", "MESH_RepType") and len(e) == 3:
        return from_args(e[2])
    return False


def from_args(e):
    if e[0] == "arg":
        return True
    if e[0] == "call" and e[1] in ("MV_Mesh", "ME_Mesh", "MF_Mesh", "MR_Mesh", "MEnt_Mesh") and len(e) == 3:
        return from_args(e[2])
    if e[0] == "ld":        # entity->mesh
        return e[1][0] == "fld" and e[1][2].endswith(".mesh") and from_args(e[1][1]) or e[1][0] == "arg"
    if e[0] == "phi":
        return True
    return False


def run(P, R):
    tables = {g[:-4]: P.globals[g]["init"][1] for g in P.globals if g.endswith("_jmp") and "init" in P.globals[g]}
    if len(tables) < 90 and P.cfg == "default":
        raise Broken("only %d dispatch tables found" % len(tables))
    serves = {}              # function -> set of (kind, rep) it serves
    for op, init in sorted(tables.items()):
        for r, e in zip(REPS, init[:5]):
            if e[0] != "fn":
                R.ob("entry", op)
                if e != ("null",) or True:
                    R.bad("entry", "%s|%s" % (op, r), "include", "table of %s has no implementation for %s" % (op, r))
                continue
            fn = e[1]
            R.ob("entry", op, sample="%s[%s] = %s" % (op, r, fn))
            base, rs = reps_of(fn)
            serves.setdefault(fn, set()).add((op[:2], r))
            if "Dummy" in fn:
                if (op, r) not in DUMMY:
                    R.bad("entry", "%s|%s|%s" % (op, r, fn), loc(P, fn), "%s on a mesh of representation %s does nothing (%s)" % (op, r, fn))
                continue
            if rs is None:
                # a new name: judged by the family and layout rules through what it calls
                continue
            if base != op or r not in rs:
                R.bad("entry", "%s|%s|%s" % (op, r, fn), loc(P, fn), "%s on a mesh of representation %s is served by %s" % (op, r, fn))
    # ---- dispatchers
    used = set()
    for f in P.funcs.values():
        for x in f.instrs():
            if x.op != "call" or x.callee:
                continue
            t = P.table_of(x)
            if not t or not t.endswith("_jmp"):
                continue
            op = t[:-4]
            used.add(op)
            R.ob("dispatch", f.file, sample="%s line %d -> %s" % (f.name, x.line, t))
            fb = f.name
            if op != fb and op not in OTHER.get(fb, ()):
                # a wrapper of another name is fine only if it is not itself an operation with a table
                if fb in tables or fb in OTHER:
                    R.bad("dispatch", "%s|table %s" % (fb, op), x.loc, "%s dispatches through the table of %s" % (fb, op))
            # index
            v = f.get(x.fn)
            a = v.o[0] if v is not None and v.op == "load" else None
            g = f.get(a) if a is not None else None
            if g is None or g.op != "getelementptr":
                R.bad("dispatch", "%s|%s index" % (fb, op), x.loc, "%s always uses one slot of the table of %s" % (fb, op))
            else:
                ix = [p[1] for p in g.path if p[0] == "x"][-1]
                e = expr(f, canon(f, ix))
                if e[0] == "call" and e[1] in ("MEnt_RepType", "MESH_RepType"):
                    if not from_args(e[2]):
                        R.bad("dispatch", "%s|%s index" % (fb, op), x.loc, "%s selects the implementation of %s with %s" % (fb, op, show(f, e)))
                elif e[0] in ("c", "f"):
                    R.bad("dispatch", "%s|%s index" % (fb, op), x.loc, "%s selects a fixed slot of the table of %s" % (fb, op))
                elif e[0] == "add" or e[0] == "sub":
                    R.bad("dispatch", "%s|%s index" % (fb, op), x.loc, "%s selects the slot %s of %s" % (fb, show(f, e), op))
            # arguments in order (each parameter passed on keeps its relative place)
            if op == fb or op in OTHER.get(fb, ()):
                av = [strip(f, y) for y in x.o]
                idxs = [y[1] for y in av if y[0] == "a"]
                tf = next((P.funcs[n] for n in P.global_fns(t) if n in P.funcs and "Dummy" not in n), None)
                if tf is not None and len(f.args) == len(av) and op == fb:
                    for i, y in enumerate(av):
                        if y[0] == "a" and y[1] != i or y[0] in ("c", "null"):
                            R.bad("dispatch", "%s|arg %d" % (fb, i), x.loc, "%s passes %s as argument %d (%s) of %s" % (
                                fb, show(f, expr(f, y)), i, f.args[i], op))
                elif idxs != sorted(set(idxs)) and op != fb:
                    R.bad("dispatch", "%s|args" % fb, x.loc, "%s passes its arguments to %s in a different order" % (fb, op))
            # result
            if x.t not in (None, "void") and f.ret not in (None, "void") and op == fb:
                if not reaches_ret(f, ("i", x.i)):
                    R.bad("dispatch", "%s|result" % fb, x.loc, "%s does not return the result of the implementation" % fb)
    for op in tables:
        if op not in used and op in P.funcs:
            R.bad("dispatch", "%s|unused" % op, loc(P, op), "%s does not use its dispatch table" % op)
    # ---- family
    for f in P.funcs.values():
        base, rs = reps_of(f.name)
        if rs is None:
            mine = {r for (_, r) in serves.get(f.name, ())} or None
        else:
            mine = rs & set(REPS)
        if not mine:
            continue
        for x in f.calls():
            if not x.callee or x.callee not in P.funcs:
                continue
            b2, r2 = reps_of(x.callee)
            if r2 is None:
                continue
            R.ob("family", base, sample="%s -> %s" % (f.name, x.callee))
            if not mine <= r2:
                # a function for several representations may test the representation itself
                if guarded_by_rep(f, x):
                    continue
                R.bad("family", "%s|%s" % (f.name, x.callee), x.loc, "%s (representations %s) calls %s, which serves %s" % (
                    f.name, "/".join(sorted(mine)), x.callee, "/".join(sorted(r2))))
    layout(P, R, tables)


def guarded_by_rep(f, x):
    for (b, _) in f.all_control_deps(x.b):
        t = f.blocks[b][-1]
        for o in t.o:
            if "RepType" in repr(expr(f, o)) or "reptype" in repr(expr(f, o)):
                return True
    return False


def loc(P, fn):
    f = P.funcs.get(fn)
    return "%s:%d" % (f.file, f.line) if f else "?"


def reaches_ret(f, v):
    seen, st = {v}, [v]
    while st:
        y = st.pop()
        for u in f.uses.get(y, ()):
            if u.op == "ret":
                return True
            if u.op in ir.CAST or u.op in ("phi", "select", "icmp", "and", "or", "add", "sub", "mul"):
                z = ("i", u.i)
                if z not in seen:
                    seen.add(z); st.append(z)
            elif u.op == "store":
                # through a local
                a = f.get(u.o[1])
                if a is not None and a.op == "alloca":
                    for l in f.uses.get(u.o[1], ()):
                        if l.op == "load":
                            z = ("i", l.i)
                            if z not in seen:
                                seen.add(z); st.append(z)
    return False


# ------------------------------------------------------------------- layout
RECORD = {"MV": {"F1": "MVertex_Adj_F1F4", "F4": "MVertex_Adj_F1F4", "R1": "MVertex_Adj_R1", "R2": "MVertex_Adj_R2", "R4": "MVertex_Adj_R4"},
          "ME": {"F1": "MEdge_Adj_F1", "F4": "MEdge_Adj_F4", "R1": "MEdge_Adj_RN", "R2": "MEdge_Adj_RN", "R4": "MEdge_Adj_RN"},
          "MF": {"F1": "MFace_Adj_F1F3", "F4": "MFace_Adj_F2F4", "R1": "MFace_Adj_R1", "R2": "MFace_Adj_R2", "R4": "MFace_Adj_R4"},
          "MR": {"F1": "MRegion_Adj_FN", "F4": "MRegion_Adj_FN", "R1": "MRegion_Adj_R1", "R2": "MRegion_Adj_R2", "R4": "MRegion_Adj_FN"}}


def field(P, st, name):
    for i, (o, n) in enumerate(P.structs.get(st, ())):
        if n == name:
            return o // 8
    return None


def offset(P, f, p):
    """(base value, byte offset, [(struct, field)]) of address p"""
    off, names, n = 0, [], 0
    while n < 16:
        n += 1
        x = f.get(p)
        if x is not None and x.op == "getelementptr":
            for k, q in enumerate(x.path):
                if q[0] == "f":
                    o = field(P, q[1].lstrip("%"), q[2])
                    if o is None:
                        return None
                    off += o
                    names.append((q[1].lstrip("%"), q[2]))
                elif q[1][0] == "c":
                    off += q[1][1] * q[2]
                else:
                    return (x.o[0], None, names)
            p = x.o[0]
        elif x is not None and x.op in ("bitcast",):
            p = x.o[0]
        else:
            return (p, off, names)
    return None


def is_adj_ptr(P, f, v):
    """v is the adjacency record of the first argument"""
    x = f.get(v)
    if x is None or x.op != "load":
        return False
    g = f.get(x.o[0])
    return g is not None and g.op == "getelementptr" and any(q[0] == "f" and q[2] == "adj" for q in g.path) and strip(f, g.o[0]) == ("a", 0)


def layout(P, R, tables):
    isof = {}
    for s, fl in P.structs.items():
        isof.setdefault(tuple(o for o, _ in fl), []).append(s)
    impl = {}
    for op, init in tables.items():
        k = op[:2]
        if k not in RECORD or op.startswith("M") and op[1] not in "VEFR":
            continue
        for r, e in zip(REPS, init[:5]):
            if e[0] == "fn" and e[1] in P.funcs and "Dummy" not in e[1]:
                impl.setdefault((k, r), set()).add(e[1])
    for k in RECORD:
        for r in REPS:
            st = RECORD[k][r]
            offs = {o // 8: n for o, n in P.structs.get(st, ())} or {0: "only field"}
            iso = set(isof.get(tuple(o for o, _ in P.structs.get(st, ())), [st])) | {st}
            setup = tables["%s_Set_RepType" % k][REPS.index(r)]
            sf = P.funcs.get(setup[1]) if setup[0] == "fn" else None
            if sf is None:
                continue
            # ---- creation: size and initialised fields
            size, stored = None, set()
            for x in sf.instrs():
                if x.op == "call" and x.callee in ("malloc", "calloc"):
                    c = [a[1] for a in x.o if a[0] == "c"]
                    if len(c) == len(x.o):
                        size = c[0] if x.callee == "malloc" else c[0] * c[1]
                    if x.callee == "calloc":
                        stored |= set(offs)
                if x.op == "call" and x.callee == "memset":
                    stored |= set(offs)
            for x in sf.instrs():
                if x.op == "store":
                    b = offset(P, sf, x.o[1])
                    if b is None:
                        continue
                    y = sf.get(strip(sf, b[0]))
                    if y is not None and (y.op == "call" and y.callee in ("malloc", "calloc") or is_adj_ptr(P, sf, b[0])):
                        if b[1] is not None:
                            stored.add(max([o for o in offs if o <= b[1]] or [0]))
            read = {}
            for fn in sorted(impl.get((k, r), ())):
                f = P.funcs[fn]
                for x in f.instrs():
                    if x.op not in ("load", "store"):
                        continue
                    b = offset(P, f, x.o[0] if x.op == "load" else x.o[1])
                    if b is None or not is_adj_ptr(P, f, b[0]):
                        continue
                    R.ob("layout", "%s %s" % (k, r), sample="%s line %d" % (fn, x.line))
                    if b[1] is None:
                        start = sum(field(P, s_, n_) or 0 for s_, n_ in b[2])
                    else:
                        start = b[1]
                    if size is not None and start >= size:
                        R.bad("layout", "%s|beyond" % fn, x.loc, "%s accesses offset %d of a %d-byte record (%s)" % (fn, start, size, st))
                        continue
                    if b[2]:
                        s_, n_ = b[2][-1]
                        if s_ not in iso and s_.split("_Adj_")[0] == st.split("_Adj_")[0]:
                            o = field(P, s_, n_)
                            if offs.get(o) != n_:
                                R.bad("layout", "%s|%s.%s" % (fn, s_, n_), x.loc,
                                      "%s serves representation %s, whose record is %s, but accesses it as %s.%s (offset %d, which is %s there)" % (
                                          fn, r, st, s_, n_, o, offs.get(o, "inside another field")))
                    if x.op == "load":
                        fo = max([o for o in offs if o <= start] or [0])
                        read.setdefault(fo, (fn, x))
            R.ob("init", "%s %s" % (k, r), n=len(read), sample="%s reads offsets %s, %s sets %s" % (st, sorted(read), sf.name, sorted(stored)))
            for fo, (fn, x) in sorted(read.items()):
                if fo not in stored:
                    R.bad("init", "%s|%s" % (sf.name, offs.get(fo, fo)), x.loc, "%s does not set %s.%s, which %s reads" % (sf.name, st, offs.get(fo, fo), fn))
