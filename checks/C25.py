"""C25: tetrahedra, pyramids, prisms and hexahedra are numbered in one way throughout."""
import itertools
from fractions import Fraction
import core, ir, own, C23
from ir import canon, strip

NAMES = {1: "TET", 2: "PYRAMID", 3: "PRISM", 4: "HEX"}
NV = {1: 4, 2: 5, 3: 6, 4: 8}
# reference elements: the vertices in the numbering of the MSTK manual
XYZ = {1: [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
       2: [(0, 0, 0), (2, 0, 0), (2, 2, 0), (0, 2, 0), (1, 1, 1)],
       3: [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1)],
       4: [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]}
# sides of Exodus II elements (nodes from 0)
EXO = {1: [(0, 1, 3), (1, 2, 3), (0, 3, 2), (0, 2, 1)],
       2: [(0, 1, 4), (1, 2, 4), (2, 3, 4), (0, 4, 3), (0, 3, 2, 1)],
       3: [(0, 1, 4, 3), (1, 2, 5, 4), (0, 3, 5, 2), (0, 2, 1), (3, 4, 5)],
       4: [(0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (0, 4, 7, 3), (0, 3, 2, 1), (4, 5, 6, 7)]}
# GMV: position in a cell -> vertex in MSTK's numbering.  The apex of a pyramid comes first.
APEX = {2: 0}

RULES = {
    "faces": "the faces of a standard element form a closed surface, each edge between two faces that run along it in opposite directions, outward as their directions say",
    "edges": "the edges of a standard element and of its faces join the vertices that the faces list one after the other",
    "counts": "numbers of vertices, edges and faces of the standard elements agree in all tables",
    "exodus": "element faces are numbered and oriented as Exodus II numbers the sides of its elements, in readers and writer alike",
    "named": "the row of a table, and the name in a file, are those of the kind of element",
    "gmv": "the order in which vertices of an element are written to a GMV file is the one in which they are read, pyramids with the apex first",
    "order": "an order of the vertices of an element names each vertex once",
    "fill": "the pieces into which an element is cut are not inverted and fill it without overlap",
    "model": "generated meshes classify vertices, edges and faces on the same model entity, each model entity having its own number",
    "sense": "a direction made up from the entry for a face or edge and how it lies in the mesh is 1 when the two agree",
    "use": "entries of tables that belong together are looked up for the same element, face and position, and entries are told from counts",
}
EXPLAIN = ("The tables are read from the initialisers of the compiled program and checked against each other exactly: incidence and orientation combinatorially, orientation in space and volumes with the reference "
           "elements in rational arithmetic, sides against the Exodus II definition. In the code, every reference to a table is found and the index expressions of those that belong together are compared.")
ASSUME = ["the vertices of an element are numbered as in the manual (base first, seen from inside anticlockwise in the reference element)"]
CONFIGS = ["default"]
CONFIGS_THOROUGH = ["default", "markers", "serial"]
MIN = {"faces": 50, "model": 50, "exodus": 45, "edges": 40, "use": 18, "counts": 12, "named": 10, "gmv": 4, "fill": 4, "order": 2, "sense": 2}


def val(v):
    if v is None:
        return None
    if v[0] == "c":
        return v[1]
    if v[0] in ("agg", "arr"):
        return [val(x) for x in v[1]]
    if v[0] in ("zero", "null"):
        return None
    return None


def shape(ty):
    dims = []
    while ty.startswith("["):
        n, ty = ty[1:].split(" x ", 1)
        dims.append(int(n))
    return dims


def fill0(v, dims):
    if not dims:
        return 0 if v is None or isinstance(v, list) else v
    if not isinstance(v, list):
        v = [None] * dims[0]
    return [fill0(x, dims[1:]) for x in v]


def table(P, name, fn=None):
    for n, g in P.globals.items():
        m = n.replace("__const.", "")
        if "init" not in g:
            continue
        if fn is None and n == name or fn is not None and (m == "%s.%s" % (fn, name) or m.startswith("%s.%s." % (fn, name))):
            return fill0(val(g["init"]), shape(g["ty"]))
    return None


def cyc(fv):
    return [(fv[i], fv[(i + 1) % len(fv)]) for i in range(len(fv))]


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def det(a, b, c):
    return (a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]))


def volume(faces, X):
    """six times the volume enclosed by oriented faces (fans from the face centre)"""
    v = Fraction(0)
    for fv in faces:
        n = len(fv)
        c = tuple(Fraction(sum(X[i][k] for i in fv), n) for k in range(3))
        for a, b in cyc(fv):
            v += det(c, X[a], X[b])
    return v


def run(P, R):
    rfv = table(P, "MSTK_rfv_template")
    rfdir = table(P, "MSTK_rfdir_template")
    rfe = table(P, "MSTK_rfe_template")
    rfedir = table(P, "MSTK_rfedir_template")
    rev = table(P, "MSTK_rev_template")
    nrf = table(P, "MSTK_nrf_template")
    nre = table(P, "MSTK_nre_template")
    nv2 = table(P, "MSTK_nv2rtype")
    if None in (rfv, rfdir, rfe, rfedir, rev, nrf, nre, nv2):
        R.undec("faces", "tables not found")
        return
    H = "include/MSTK_globals.h"
    for t in NAMES:
        faces = surface(R, t, H, [rfv[t][i][1:1 + rfv[t][i][0]] for i in range(nrf[t])], rfdir[t], "MSTK_rfv_template")
        # edges
        R.ob("edges", NAMES[t], nre[t])
        E = [tuple(rev[t][k]) for k in range(nre[t])]
        want = {frozenset(e) for fv in faces or [] for e in cyc(fv)}
        if {frozenset(e) for e in E} != want or len(E) != len(set(map(frozenset, E))):
            R.bad("edges", "MSTK_rev_template|%s" % NAMES[t], H, "the edges of a %s are not those of its faces" % NAMES[t])
            continue
        for i in range(nrf[t]):
            R.ob("edges", "%s face %d" % (NAMES[t], i), 1)
            fv = rfv[t][i][1:1 + rfv[t][i][0]]
            n, nd = rfe[t][i][0], rfedir[t][i][0]
            ok = n == len(fv) == nd
            if ok:
                path = []
                for k in range(n):
                    e, d = rfe[t][i][1 + k], rfedir[t][i][1 + k]
                    if not 0 <= e < len(E) or d not in (0, 1):
                        ok = False
                        break
                    path.append(E[e] if d else E[e][::-1])
                ok = ok and set(path) == set(cyc(fv)) and all(path[k][1] == path[(k + 1) % n][0] for k in range(n))
            if not ok:
                R.bad("edges", "MSTK_rfe_template|%s" % NAMES[t], H, "face %d of a %s: its edges and their directions do not go round its vertices" % (i, NAMES[t]))
    # counts
    for t in NAMES:
        R.ob("counts", NAMES[t], 2)
        if nv2[NV[t]] != t:
            R.bad("counts", "MSTK_nv2rtype|%s" % NAMES[t], H, "an element of %d vertices is not taken for a %s" % (NV[t], NAMES[t]))
        if NV[t] - nre[t] + nrf[t] != 2:
            R.bad("counts", "MSTK_nre_template|%s" % NAMES[t], H, "the numbers of edges and faces of a %s do not agree" % NAMES[t])
        for nm, w in (("mrtype_nv", NV[t]), ("mrtype_ne", nre[t]), ("mrtype_nf", nrf[t])):
            tb = table(P, nm)
            if tb is not None:
                R.ob("counts", nm, 1)
                if tb[t] != w:
                    R.bad("counts", "%s|%s" % (nm, NAMES[t]), "src/base/MRegion.c", "%s of a %s is %d in one table and %d in another" % (nm, NAMES[t], tb[t], w))
    exodus(P, R, rfv, nrf)
    named(P, R)
    gmv(P, R)
    for fn, nm, types in (("MESH_ExportToDXBin", "rvtmpl", {0: 1, 1: 2, 2: 3, 3: 4}),):
        tb = table(P, nm, fn)
        for r, t in types.items():
            if tb is not None:
                R.ob("order", "%s %s" % (fn, NAMES[t]), 1)
                if sorted(tb[r][:NV[t]]) != list(range(NV[t])):
                    R.bad("order", "%s|%s" % (fn, NAMES[t]), P.funcs[fn].loc if hasattr(P.funcs[fn], "loc") else fn, "%s does not write each vertex of a %s once" % (fn, NAMES[t]))
    subdivide(P, R, rfv, nrf)
    model(P, R)
    use(P, R)


def surface(R, t, where, faces, dirs, what):
    """faces as oriented outward, or None"""
    nm = NAMES[t]
    R.ob("faces", "%s %s" % (what, nm), len(faces))
    out = []
    for i, fv in enumerate(faces):
        if dirs[i] not in (0, 1):
            R.bad("faces" if what.startswith("MSTK") else "exodus", "%s|%s|dir" % (what, nm), where, "%s: the direction of face %d of a %s is neither 0 nor 1" % (what, i, nm))
            return None
        if len(set(fv)) != len(fv) or len(fv) < 3 or any(not 0 <= v < NV[t] for v in fv):
            R.bad("faces" if what.startswith("MSTK") else "exodus", "%s|%s" % (what, nm), where, "%s: face %d of a %s does not list 3 or 4 of its vertices" % (what, i, nm))
            return None
        out.append(list(fv) if dirs[i] else list(fv)[::-1])
    he = [e for fv in out for e in cyc(fv)]
    bad = None
    if len(he) != len(set(he)) or any((b, a) not in set(he) for a, b in he):
        bad = "the faces of a %s do not close, or do not run along each edge in opposite directions" % nm
    elif len({v for fv in out for v in fv}) != NV[t]:
        bad = "the faces of a %s do not use all of its vertices" % nm
    elif volume(out, XYZ[t]) <= 0:
        bad = "the faces of a %s point inward" % nm
    if bad:
        R.bad("faces" if what.startswith("MSTK") else "exodus", "%s|%s" % (what, nm), where, "%s: %s" % (what, bad))
        return None
    return out


def exodus(P, R, rfv, nrf):
    for fn in ("MESH_ReadExodusII_Serial", "MESH_ReadExodusII_Partial", "ExodusII_GetElementGraph"):
        if fn not in P.funcs:
            continue
        where = "%s:%d" % (P.funcs[fn].file, P.funcs[fn].line)
        n, nv, fv, fd = (table(P, k, fn) for k in ("exo_nrf", "exo_nrfverts", "exo_rfverts", "exo_rfdirs"))
        if None in (n, nv, fv, fd):
            R.undec("exodus", fn)
            continue
        for r in range(len(n)):
            used = {v for i in range(n[r]) for v in fv[r][i][:nv[r][i]]}
            t = {4: 1, 5: 2, 6: 3, 8: 4}.get(len(used))
            R.ob("exodus", "%s row %d" % (fn, r), n[r])
            if t is None or n[r] != nrf[t]:
                R.bad("exodus", "%s|row%d" % (fn, r), where, "%s: row %d of exo_rfverts is not a standard element" % (fn, r))
                continue
            faces = [fv[r][i][:nv[r][i]] for i in range(n[r])]
            if surface(R, t, where, faces, fd[r], fn) is None:
                continue
            if [frozenset(x) for x in faces] != [frozenset(x) for x in EXO[t]]:
                R.bad("exodus", "%s|%s|sides" % (fn, NAMES[t]), where, "%s: the faces of a %s are not in the order of the sides of an Exodus II element" % (fn, NAMES[t]))
    fn = "MESH_ExportToExodusII"
    fm = table(P, "mstk2exo_facemap", fn)
    if fm is None:
        R.undec("exodus", fn)
        return
    for t in NAMES:
        if not any(fm[t]):
            continue
        R.ob("exodus", "%s %s" % (fn, NAMES[t]), nrf[t])
        for i in range(nrf[t]):
            fv = frozenset(rfv[t][i][1:1 + rfv[t][i][0]])
            s = fm[t][i]
            if not 1 <= s <= nrf[t] or frozenset(EXO[t][s - 1]) != fv:
                R.bad("exodus", "%s|%s" % (fn, NAMES[t]), "%s:%d" % (P.funcs[fn].file, P.funcs[fn].line), "%s: face %d of a %s is not side %d of the Exodus II element" % (fn, i, NAMES[t], s))
                break


FILEN = {"tet": 1, "tetra": 1, "pyramid": 2, "wedge": 3, "prism": 3, "hex": 4}


def kinds(f, facts):
    """element kinds whose names have been compared equal"""
    out = set()
    for k, tr in facts.items():
        if not (isinstance(k, tuple) and len(k) == 3 and k[2] == ("c", 0) and (k[1], tr) in (("eq", True), ("ne", False))):
            continue
        c = f.get(k[0])
        if c is None or c.op != "call" or c.callee not in ("strcmp", "strncmp", "strcasecmp", "strncasecmp"):
            continue
        for o in c.o:
            o = strip(f, o)
            if o[0] == "s" and o[1].lower() in FILEN:
                out.add(FILEN[o[1].lower()])
    return out


def named(P, R):
    for f in P.funcs.values():
        todo = []
        rows = None
        for x in f.instrs():
            if x.op != "load":
                continue
            g = gindex(f, x.o[0])
            if g is None or not g[1]:
                continue
            y = f.get(g[0])
            nm = local_name(f, g[0]) if y is not None and y.op == "alloca" else g[0][1].replace("__const.", "").split(".")[-1] if g[0][0] == "g" else None
            if nm == "exo_rfverts":
                rows = table(P, "exo_nrf", f.name), table(P, "exo_rfverts", f.name), table(P, "exo_nrfverts", f.name)
                todo.append(canon(f, g[1][0]))
        if rows and None not in rows:
            seen, roots = set(), set()
            found = []
            while todo:
                v = canon(f, todo.pop())
                if v in seen:
                    continue
                seen.add(v)
                x = f.get(v)
                if x is None:
                    continue
                if x.op in ("sext", "zext", "trunc"):
                    todo.append(x.o[0])
                elif x.op in ("phi", "select"):
                    for o in (x.o if x.op == "phi" else [(w, x.b) for w in x.o[1:]]):
                        if o[0][0] == "c":
                            found.append((o[0][1], o[1], x.line))
                        else:
                            todo.append(o[0])
                elif x.op == "load":
                    roots.add(base(f, x.o[0]))
            for x in f.instrs():
                if x.op == "store" and x.o[0][0] == "c" and base(f, x.o[1]) in roots:
                    found.append((x.o[0][1], x.b, x.line))
            for c, b, line in found:
                ks = kinds(f, own.dominating_facts(f, b))
                if not ks:
                    continue
                R.ob("named", "%s row %d" % (f.name, c), 1)
                n, fv, nv = rows
                if not 0 <= c < len(n) or {len({v for i in range(n[c]) for v in fv[c][i][:nv[c][i]]})} != {NV[k] for k in ks}:
                    R.bad("named", "%s|row%d" % (f.name, c), "%s:%d" % (f.file, line), "%s looks a %s up in the row of another element" % (f.name, NAMES[sorted(ks)[0]]))
        if rows and None not in rows:
            vec = {1: (4, 4, 6), 2: (5, 5, 8), 3: (6, 5, 9), 4: (8, 6, 12)}
            for x in f.instrs():
                if x.op != "phi" or ("i", x.i) in seen:
                    continue
                got = {}
                todo, done = [x], set()
                while todo:
                    y = todo.pop()
                    if y.i in done:
                        continue
                    done.add(y.i)
                    for o, pb in y.o:
                        if o[0] == "c":
                            ks = kinds(f, own.dominating_facts(f, pb))
                            if len(ks) == 1:
                                got[min(ks)] = o[1]
                        elif f.get(o) is not None and f.get(o).op == "phi":
                            todo.append(f.get(o))
                if len(got) < 3:
                    continue
                R.ob("named", "%s number" % f.name, len(got))
                for q in range(3):
                    hit = [t for t in got if got[t] == vec[t][q]]
                    if len(hit) == len(got):
                        break
                    if len(hit) == len(got) - 1:
                        t = min(t for t in got if t not in hit)
                        R.bad("named", "%s|number" % f.name, x.loc, "%s takes %d for the number of %s of a %s" % (f.name, got[t], ("vertices", "faces", "edges")[q], NAMES[t]))
                        break
        for c in f.instrs():
            if c.op != "call" or "cmp" in (c.callee or ""):
                continue
            for o in c.o:
                o = strip(f, o)
                if o[0] != "s" or not o[1].split() or o[1].split()[0].lower() not in FILEN:
                    continue
                wd = o[1].split()
                t = FILEN[wd[0].lower()]
                if len(wd) > 1 and not wd[1].isdigit():
                    continue
                ks = kinds(f, own.dominating_facts(f, c.b))
                for k, tr in own.dominating_facts(f, c.b).items():
                    if not (isinstance(k, tuple) and len(k) == 3 and k[2][0] == "c" and (k[1], tr) in (("eq", True), ("ne", False))):
                        continue
                    if of_region(f, k[0]) and k[2][1] in NAMES:
                        ks.add(k[2][1])
                    elif number(f, k[0]) and len(wd) > 1 and k[2][1] in RNV:
                        ks.add(RNV[k[2][1]])
                if not ks and len(wd) == 1:
                    continue
                R.ob("named", "%s %s" % (f.name, wd[0]), 1)
                if ks and ks != {t}:
                    R.bad("named", "%s|%s" % (f.name, wd[0]), c.loc, "%s calls a %s a %s" % (f.name, NAMES[sorted(ks)[0]], wd[0]))
                elif len(wd) > 1 and int(wd[1]) != NV[t]:
                    R.bad("named", "%s|%s|n" % (f.name, wd[0]), c.loc, "%s gives a %s %s vertices" % (f.name, NAMES[t], wd[1]))


RNV = {n: t for t, n in NV.items()}


def number(f, v):
    """the value is the number of vertices of something"""
    x = f.get(canon(f, v))
    if x is None or x.op != "call" or x.callee != "List_Num_Entries":
        return False
    y = f.get(canon(f, x.o[0]))
    return y is not None and y.op == "call" and (y.callee or "").endswith("_Vertices")


def of_region(f, v, n=0):
    """the value is the kind of a region"""
    x = f.get(canon(f, v))
    if x is None or n > 5:
        return False
    if x.op == "call":
        return x.callee in ("MR_ElementType",) or (x.callee or "").startswith("MR_ElementType")
    if x.op == "phi":
        return any(of_region(f, o[0], n + 1) for o in x.o)
    if x.op in ("sext", "zext", "trunc"):
        return of_region(f, x.o[0], n + 1)
    return False


def base(f, v):
    v = strip(f, v)
    for _ in range(6):
        x = f.get(v)
        if x is None or x.op != "getelementptr":
            break
        v = strip(f, x.o[0])
    return canon(f, v)


def gmv(P, R):
    """direction in which each routine uses its table is read from the code"""
    w, r = table(P, "rtmpl", "MESH_ExportToGMV"), table(P, "rtmpl", "MESH_ImportFromGMV")
    if w is None or r is None:
        R.undec("gmv", "rtmpl")
        return
    fw, fr = P.funcs["MESH_ExportToGMV"], P.funcs["MESH_ImportFromGMV"]
    inv = scattered(fr)
    for t in NAMES:
        n = NV[t]
        a, b = w[n - 4][:n], r[n - 4][:n]
        R.ob("gmv", NAMES[t], 2)
        for f, x in ((fw, a), (fr, b)):
            if sorted(x) != list(range(n)):
                R.bad("gmv", "%s|%s|perm" % (f.name, NAMES[t]), "%s:%d" % (f.file, f.line), "%s: the order of the vertices of a %s does not name each once" % (f.name, NAMES[t]))
                return
        if inv is None:
            R.undec("gmv", fr.name)
            continue
        # file[j] = m[a[j]];  read: vtx[b[j]] = file[j]  (scattered)  or  vtx[j] = file[b[j]]
        got = [None] * n
        for j in range(n):
            if inv:
                got[b[j]] = a[j]
            else:
                got[j] = a[b[j]]
        if got != list(range(n)):
            R.bad("gmv", "order|%s" % NAMES[t], "%s:%d" % (fr.file, fr.line), "a %s written by %s is read by %s with its vertices in another order" % (NAMES[t], fw.name, fr.name))
        elif t in APEX and a[APEX[t]] != n - 1:
            R.bad("gmv", "apex|%s" % NAMES[t], "%s:%d" % (fw.file, fw.line), "%s does not write the apex of a pyramid first" % fw.name)


def gindex(f, v):
    """(table name, [index values]) that a load address refers to"""
    path = []
    v = strip(f, v)
    n = 0
    while n < 6:
        n += 1
        x = f.get(v)
        if x is None or x.op != "getelementptr":
            break
        p = [q for q in x.path or ()]
        if any(q[0] == "f" for q in p):
            return None
        idx = [q[1] for q in p]
        # a leading 0 steps through the object itself
        path.insert(0, idx)
        v = strip(f, x.o[0])
    if not path:
        return None
    # a leading 0 of each step goes into the object that the step before named
    out = []
    for s in path:
        out += s[1:] if len(s) > 1 and s[0] == ("c", 0) else s
    x = f.get(v)
    n = x.op == "alloca" and local_name(f, v) if x is not None else v[1].replace("__const.", "").split(".")[-1] if v[0] == "g" else None
    # steps to the first entry leave no trace
    for d in (GROUP, EXOG, GEN):
        if n in d:
            out += [("c", 0)] * (d[n] - len(out))
    return v, out


def scattered(f):
    """the table entry says where to put what is read (True) or from where to take it (False)"""
    for x in f.instrs():
        if x.op != "load":
            continue
        g = gindex(f, x.o[0])
        if g is None or not is_table(f, g[0], "rtmpl"):
            continue
        todo, seen = [("i", x.i)], set()
        while todo:
            v = todo.pop()
            for u in f.uses.get(v, ()):
                if u.i in seen:
                    continue
                seen.add(u.i)
                if u.op in ("sext", "zext", "trunc", "phi", "add"):
                    todo.append(("i", u.i))
                elif u.op == "getelementptr":
                    for s in f.uses.get(("i", u.i), ()):
                        if s.op == "store" and s.o[1] == ("i", u.i):
                            return True
                        if s.op == "load":
                            # read again later: stored elsewhere?
                            for q in f.uses.get(("i", s.i), ()):
                                if q.op == "store" and q.o[0] == ("i", s.i):
                                    return False
    return None


def is_table(f, v, name):
    if v[0] == "g":
        return v[1].replace("__const.", "").split(".")[-1] == name or v[1].endswith("." + name) or v[1] == name
    x = f.get(v)
    if x is not None and x.op == "alloca":
        return local_name(f, v) == name
    return False


def local_name(f, v):
    """name of a local that is initialised as a whole from a constant"""
    for u in f.uses.get(v, ()):
        if u.op == "call" and (u.callee or "").startswith("llvm.memcpy") and len(u.o) > 1:
            s = strip(f, u.o[1])
            if s[0] == "g":
                return s[1].replace("__const.", "").split(".")[1] if "." in s[1].replace("__const.", "") else s[1]
    return None


# ------------------------------------------------------------ cutting elements
def subdivide(P, R, rfv, nrf):
    th = table(P, "tet_hex", "MESH_Tet2Hex")
    F = Fraction
    if th is None:
        R.undec("fill", "MESH_Tet2Hex")
    else:
        X = [tuple(map(F, p)) for p in XYZ[1]]
        mid = lambda ids: tuple(sum(X[i][k] for i in ids) / len(ids) for k in range(3))
        pts = list(X) + [mid(e) for e in itertools.combinations(range(4), 2)]
        pts += [mid([(i + j + 1) % 4 for j in range(3)]) for i in range(4)] + [mid(range(4))]
        w = "%s:%d" % (P.funcs["MESH_Tet2Hex"].file, P.funcs["MESH_Tet2Hex"].line)
        tot, he, ok = F(0), [], True
        for k, row in enumerate(th):
            R.ob("fill", "MESH_Tet2Hex %d" % k, 1)
            if sorted(set(row)) != sorted(row) or any(not 0 <= v < 15 for v in row):
                ok = False
                break
            faces = [[row[v] for v in rfv[4][i][1:5]] for i in range(6)]
            # every corner of a hexahedron turns the right way
            vol = volume(faces, pts)
            tot += vol
            nb = {0: (1, 3, 4), 1: (2, 0, 5), 2: (3, 1, 6), 3: (0, 2, 7), 4: (7, 5, 0), 5: (4, 6, 1), 6: (5, 7, 2), 7: (6, 4, 3)}
            for c, (a, b, d) in nb.items():
                if det(sub(pts[row[a]], pts[row[c]]), sub(pts[row[b]], pts[row[c]]), sub(pts[row[d]], pts[row[c]])) <= 0:
                    ok = False
            he += [frozenset(fv) for fv in faces]
        if ok:
            # faces: 12 shared by... inner faces twice, outer ones once
            once = [x for x in set(he) if he.count(x) == 1]
            if tot != volume([rfv[1][i][1:4] for i in range(4)], X) or any(he.count(x) > 2 for x in he) or len(once) != 12:
                ok = False
        if not ok:
            R.bad("fill", "MESH_Tet2Hex", w, "MESH_Tet2Hex: the hexahedra that a tetrahedron is cut into are inverted, overlap or leave gaps")
    tq = table(P, "tri_quad", "MESH_Tri2Quad")
    if tq is None:
        R.undec("fill", "MESH_Tri2Quad")
        return
    labels = tri_labels(P)
    w = "%s:%d" % (P.funcs["MESH_Tri2Quad"].file, P.funcs["MESH_Tri2Quad"].line)
    X = [(F(0), F(0)), (F(1), F(0)), (F(0), F(1))]
    mid = lambda ids: tuple(sum(X[i][k] for i in ids) / len(ids) for k in range(2))
    pts = list(X) + [mid(e) for e in labels] + [mid(range(3))]
    ok, tot = True, F(0)
    for k, row in enumerate(tq):
        R.ob("fill", "MESH_Tri2Quad %d" % k, 1)
        if sorted(set(row)) != sorted(row) or any(not 0 <= v < 7 for v in row):
            ok = False
            break
        for i in range(4):
            a, b, c = pts[row[i - 1]], pts[row[i]], pts[row[(i + 1) % 4]]
            if (b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0]) <= 0:
                ok = False
        tot += sum(pts[row[i]][0] * pts[row[(i + 1) % 4]][1] - pts[row[i]][1] * pts[row[(i + 1) % 4]][0] for i in range(4))
    if not ok or tot != 1:
        R.bad("fill", "MESH_Tri2Quad", w, "MESH_Tri2Quad: the quadrilaterals that a triangle is cut into are inverted, overlap or leave gaps")


def tri_labels(P):
    return [(0, 1), (1, 2), (2, 0)]


# ------------------------------------------------------------------ generator
def model(P, R):
    fn = "MESH_Gen_Structured"
    T = {k: table(P, k, fn) for k in ("vgid_tmpl", "vgdim_tmpl", "egdim_tmpl", "egid_tmpl0", "egid_tmpl1", "egid_tmpl2", "fgdim_tmpl", "fgid_tmpl0", "fgid_tmpl1", "fgid_tmpl2")}
    if any(v is None for v in T.values()):
        R.undec("model", fn)
        return
    w = "%s:%d" % (P.funcs[fn].file, P.funcs[fn].line)
    gid, gdim = T["vgid_tmpl"], T["vgdim_tmpl"]
    r3 = range(3)
    R.ob("model", "vgdim", 27)
    for i, j, k in itertools.product(r3, r3, r3):
        if gdim[i][j][k] != sum(x == 1 for x in (i, j, k)):
            R.bad("model", "vgdim_tmpl", w, "%s: a vertex is classified on a model entity of the wrong dimension" % fn)
            break
    for d in r3:
        R.ob("model", "ids %d" % d, 1)
        ids = [gid[i][j][k] for i, j, k in itertools.product(r3, r3, r3) if sum(x == 1 for x in (i, j, k)) == d]
        if len(ids) != len(set(ids)):
            R.bad("model", "vgid_tmpl|%d" % d, w, "%s: two model entities of dimension %d have the same number" % (fn, d))
    ed = [("egid_tmpl0", lambda a, b: (1, a, b)), ("egid_tmpl1", lambda a, b: (a, 1, b)), ("egid_tmpl2", lambda a, b: (a, b, 1))]
    for nm, at in ed:
        R.ob("model", nm, 9)
        for a, b in itertools.product(r3, r3):
            i, j, k = at(a, b)
            if T[nm][a][b] != gid[i][j][k] or T["egdim_tmpl"][a][b] != gdim[i][j][k]:
                R.bad("model", nm, w, "%s: an edge is classified on another model entity than the vertices on it" % fn)
                break
    fd = [("fgid_tmpl0", lambda a: (a, 1, 1)), ("fgid_tmpl1", lambda a: (1, a, 1)), ("fgid_tmpl2", lambda a: (1, 1, a))]
    for nm, at in fd:
        R.ob("model", nm, 3)
        for a in r3:
            i, j, k = at(a)
            if T[nm][a] != gid[i][j][k] or T["fgdim_tmpl"][a] != gdim[i][j][k]:
                R.bad("model", nm, w, "%s: a face is classified on another model entity than the vertices on it" % fn)
                break


# ------------------------------------------------------------------------ use
GROUP = {"MSTK_rfv_template": 3, "MSTK_rfe_template": 3, "MSTK_rfedir_template": 3, "MSTK_rfdir_template": 2, "MSTK_rev_template": 3}
GEN = {"vgid_tmpl": 3, "vgdim_tmpl": 3, "egdim_tmpl": 2, "egid_tmpl0": 2, "egid_tmpl1": 2, "egid_tmpl2": 2, "fgdim_tmpl": 1, "fgid_tmpl0": 1, "fgid_tmpl1": 1, "fgid_tmpl2": 1}
EXOG = {"exo_rfverts": 3, "exo_nrfverts": 2, "exo_rfdirs": 2}


def use(P, R):
    for f in P.funcs.values():
        refs = []
        for x in f.instrs():
            if x.op != "load":
                continue
            g = gindex(f, x.o[0])
            if g is None:
                continue
            v, idx = g
            name = None
            if v[0] == "g":
                name = v[1] if v[1] in GROUP else v[1].replace("__const.", "").split(".")[-1]
            else:
                y = f.get(v)
                if y is not None and y.op == "alloca":
                    name = local_name(f, v)
            if name in GROUP and len(idx) == GROUP[name] or name in EXOG and len(idx) == EXOG[name]:
                refs.append((name, [canon(f, i) for i in idx], x))
        if not refs:
            continue
        key = lambda i: C23.frz(C23.pol(f, i))
        for name, idx, x in refs:
            if name in ("MSTK_rfv_template", "MSTK_rfe_template", "MSTK_rfedir_template"):
                R.ob("use", f.name, 1, sample="%s:%d" % (f.name, x.line))
                k = idx[2]
                if k == ("c", 0):
                    continue
                if lowest(f, k) == 0:
                    R.bad("use", "%s|%s|count" % (f.name, name), x.loc, "%s takes the number of entries for an entry of %s" % (f.name, name))
                if k[0] != "c":
                    cnt = [r for r in refs if r[0] in ("MSTK_rfv_template", "MSTK_rfe_template", "MSTK_rfedir_template") and r[1][2] == ("c", 0)]
                    if cnt and not any(key(r[1][0]) == key(idx[0]) and key(r[1][1]) == key(idx[1]) for r in cnt):
                        R.bad("use", "%s|%s|other" % (f.name, name), x.loc, "%s goes through the entries of one face by the number of entries of another" % f.name)
            if name == "MSTK_rfv_template":
                other(f, name, idx, x, refs, key, R)
            if name == "MSTK_rfedir_template" and idx[2] != ("c", 0):
                mates = [r for r in refs if r[0] == "MSTK_rfe_template"]
                if mates and not any([key(a) for a in r[1]] == [key(a) for a in idx] for r in mates):
                    R.bad("use", "%s|rfedir" % f.name, x.loc, "%s uses the direction of one edge of a face with another edge" % f.name)
            if name in ("MSTK_rfdir_template", "exo_rfdirs", "exo_nrfverts"):
                mates = [r for r in refs if r[0] in (("MSTK_rfv_template", "MSTK_rfe_template") if name.startswith("MSTK") else ("exo_rfverts",))]
                R.ob("use", f.name, 1)
                if mates and not any([key(a) for a in r[1][:2]] == [key(a) for a in idx] for r in mates):
                    R.bad("use", "%s|%s" % (f.name, name), x.loc, "%s uses the entry of %s for one face with the vertices of another" % (f.name, name))


    for f in P.funcs.values():
        given(P, R, f)
        ends(R, f)
        sense(R, f)
    generator(P, R)


def two(f, v):
    """(kind, [outer index, inner index]) of a place in a table of faces given with a region, or None"""
    idx = []
    for _ in range(2):
        v = strip(f, v)
        x = f.get(v)
        if x is not None and x.op == "getelementptr" and len(x.path or ()) == 1 and x.path[0][0] == "x":
            idx.insert(0, x.path[0][1])
            v = strip(f, x.o[0])
        else:
            idx.insert(0, ("c", 0))
        if len(idx) == 1:
            y = f.get(v)
            if y is None or y.op != "load":
                return None
            v = y.o[0]
    y = f.get(v)
    if v == ("a", 4) and f.name.startswith("MR_Set_Vertices"):
        return "rfvtemplate", idx
    if y is not None and y.op == "load":
        z = f.get(strip(f, y.o[0]))
        if z is not None and z.op == "getelementptr" and z.path and z.path[-1][0] == "f" and (z.path[-1][2] == "fvtemplate" or f.file.endswith(("_R1.c", "_R2.c")) and f.name.startswith("MR_") and z.path[-1][1].startswith("%MRegion_Adj") and ir_field(z)):
            return "fvtemplate", idx
    return None


def ir_field(z):
    """second field of the adjacencies of a region (structures of one layout share a name)"""
    return z.path[-1][2] in ("fvtemplate", "rfaces")


def given(P, R, f):
    """tables of faces given with a region: the number of faces in row 0 (stored), of vertices in entry 0"""
    refs = []
    for x in f.instrs():
        if x.op in ("load", "store"):
            g = two(f, x.o[0] if x.op == "load" else x.o[1])
            if g is not None:
                refs.append((g[0], [canon(f, i) for i in g[1]], x))
    key = lambda i: C23.frz(C23.pol(f, i))
    for nm, idx, x in refs:
        R.ob("use", f.name, 1)
        a, b = (lowest(f, i) for i in idx)
        head = nm == "fvtemplate" and idx[0] == ("c", 0) == idx[1]
        if head:
            continue
        if nm == "fvtemplate" and a == 0:
            R.bad("use", "%s|%s|row" % (f.name, nm), x.loc, "%s takes the number of faces of a region for its first face" % f.name)
        elif nm == "rfvtemplate" and a is not None and a > 0:
            R.bad("use", "%s|%s|row" % (f.name, nm), x.loc, "%s leaves out the first of the faces given" % f.name)
        if idx[1] == ("c", 0):
            continue
        if b == 0:
            R.bad("use", "%s|%s|count" % (f.name, nm), x.loc, "%s takes the number of vertices of a face for a vertex" % f.name)
        elif b is not None and b > 1 and idx[1][0] != "c":
            R.bad("use", "%s|%s|first" % (f.name, nm), x.loc, "%s leaves out the first vertex of a face" % f.name)
        other(f, nm, idx, x, refs, key, R)
        cnt = [r for r in refs if r[0] == nm and r[1][1] == ("c", 0) and r[1][0] != ("c", 0)]
        if cnt and not any(key(r[1][0]) == key(idx[0]) for r in cnt):
            R.bad("use", "%s|%s|other" % (f.name, nm), x.loc, "%s goes through the vertices of one face by the number of those of another" % f.name)
    # copies keep the place
    for nm, idx, x in refs:
        if x.op != "store" or nm != "fvtemplate" or idx[1] == ("c", 0):
            continue
        src = [r for r in refs if r[2].op == "load" and r[0] == "rfvtemplate" and canon(f, x.o[0]) == canon(f, ("i", r[2].i))]
        for r in src:
            R.ob("use", f.name, 1)
            if key(r[1][1]) != key(idx[1]):
                R.bad("use", "%s|copy" % f.name, x.loc, "%s keeps the vertices of a face in other places" % f.name)


def ends(R, f):
    """both ends of an edge are looked up"""
    refs = {}
    for x in f.instrs():
        if x.op == "load":
            g = gindex(f, x.o[0])
            if g is not None and g[0] == ("g", "MSTK_rev_template") and len(g[1]) == 3:
                i = [canon(f, q) for q in g[1]]
                refs.setdefault(tuple(C23.frz(C23.pol(f, q)) for q in i[:2]), []).append((i[2], x))
    for k, l in refs.items():
        R.ob("use", f.name, 1)
        if all(i[0] == "c" for i, x in l) and {i[1] for i, x in l} != {0, 1}:
            R.bad("use", "%s|ends" % f.name, l[0][1].loc, "%s does not look both ends of an edge up" % f.name)


def other(f, name, idx, x, refs, key, R):
    """an entry taken round a number: it is the number of entries, or known to equal it"""
    m = [k for k in C23.pol(f, idx[-1]) if isinstance(k, tuple) and k and k[0] == "mod"]
    if len(m) != 1:
        return
    n = m[0][2]
    cnt = [r for r in refs if r[0] == name and r[1][-1] == ("c", 0) and [key(a) for a in r[1][:-1]] == [key(a) for a in idx[:-1]]]
    R.ob("use", f.name, 1)
    if any(k[0] == "a" for k, c in n if k):
        return
    if any(n == key(("i", r[2].i)) for r in cnt):
        return
    for k, t in own.dominating_facts(f, x.b).items():
        if isinstance(k, tuple) and len(k) == 3 and (k[1], t) in (("eq", True), ("ne", False)) and any({key(k[0]), key(k[2])} == {n, key(("i", r[2].i))} for r in cnt):
            return
    R.bad("use", "%s|%s|number" % (f.name, name), x.loc, "%s goes round a face by a number of vertices that need not be its own" % f.name)


def sense(R, f):
    """results computed from a direction of the tables and another truth: 1 exactly when they agree"""
    T = {}
    for x in f.instrs():
        if x.op == "load":
            g = gindex(f, x.o[0])
            if g is not None and g[0] in (("g", "MSTK_rfdir_template"), ("g", "MSTK_rfedir_template")):
                if g[0][1] == "MSTK_rfedir_template" and g[1][-1] == ("c", 0):
                    continue
                T[x.i] = tuple(C23.frz(C23.pol(f, q)) for q in g[1])
    if not T:
        return
    for x in f.instrs():
        if x.op not in ("store", "phi", "ret") or not x.o:
            continue
        if x.op == "phi" and x.b in f.loops():
            continue
        v = ("i", x.i) if x.op == "phi" else x.o[0]
        if canon(f, v)[0] != "i":
            continue
        if x.op != "phi" and f.get(canon(f, v)).op == "phi":
            continue
        # the truths that go in
        leaves, tabs = set(), set()
        truth(f, v, {}, T, leaves, tabs)
        if len(tabs) != 1 or len(leaves) != 1:
            continue
        t, l = tabs.pop(), leaves.pop()
        got = [truth(f, v, {t: a, l: b}, T, set(), set()) for a, b in ((0, 0), (0, 1), (1, 0), (1, 1))]
        if None in got:
            continue
        R.ob("sense", f.name, 1)
        y = f.get(l)
        cols = [(got[0], got[2]), (got[1], got[3])]
        if (1, 0) in cols and any(q in ((0, 0), (1, 1)) for q in cols):
            R.bad("sense", "%s|turned" % f.name, "%s:%d" % (f.file, x.line or f.line), "%s answers the direction in the table the other way round" % f.name)
            continue
        if got not in ([1, 0, 0, 1], [0, 1, 1, 0]):
            continue
        turned = False
        if y is not None and y.op == "icmp":
            k = [canon(f, o) for o in y.o if canon(f, o)[0] in ("c", "null")]
            if y.p not in ("eq", "ne") or k and (k[0][0] == "null" or k[0][1] not in (0, 1)):
                continue
            turned = (y.p == "ne") != (bool(k) and k[0] == ("c", 0))
        if (got == [0, 1, 1, 0]) != turned:
            R.bad("sense", "%s|agree" % f.name, "%s:%d" % (f.file, x.line or f.line), "%s does not give 1 exactly when the direction in the table and the one found in the mesh agree" % f.name)


def truth(f, v, env, T, leaves, tabs, depth=0):
    """value under assumptions, collecting the table entries and other truths it is computed from"""
    c = canon(f, v)
    if c[0] == "c":
        return c[1] & 1 if c[1] in (0, 1, -1) else None
    x = f.get(c)
    if x is None or depth > 12:
        leaves.add(c)
        return env.get(c)
    if x.op == "load" and x.i in T:
        k = ("T", T[x.i])
        tabs.add(k)
        return env.get(k)
    sub_ = lambda o: truth(f, o, env, T, leaves, tabs, depth + 1)
    if x.op == "xor":
        a, b = sub_(x.o[0]), sub_(x.o[1])
        return None if a is None or b is None else a ^ b
    if x.op == "sub" and canon(f, x.o[0]) == ("c", 1):
        a = sub_(x.o[1])
        return None if a is None else 1 - a
    if x.op == "icmp" and x.p in ("eq", "ne"):
        o = [canon(f, q) for q in x.o]
        bool_ = lambda q: q[0] == "c" and q[1] in (0, 1) or q[0] == "i" and (q[1] in T or f.get(q).op in ("xor", "phi", "select") or f.get(q).op == "icmp")
        if any(q[0] == "i" and q[1] in T for q in o) or all(bool_(q) for q in o):
            a, b = sub_(o[0]), sub_(o[1])
            return None if a is None or b is None else int((a == b) == (x.p == "eq"))
        leaves.add(c)
        return env.get(c)
    if x.op == "select":
        p = sub_(x.o[0])
        a, b = sub_(x.o[1]), sub_(x.o[2])
        return None if p is None else a if p else b
    if x.op in ("phi",) and x.b not in f.loops():
        hit = []
        for o, pb in x.o:
            # the branch that leads here and what it tests
            ok = True
            t = None
            d = pb
            for _ in range(3):
                br = f.blocks[d][-1]
                if br.op == "br" and br.o and len(set(f.succ[d])) == 2:
                    t = br
                    break
                if len(f.pred[d]) != 1:
                    break
                d0, d = d, f.pred[d][0]
            if t is not None:
                w = sub_(t.o[0])
                nxt = x.b if d == pb else None
                side = [s for s in f.succ[d] if (s == x.b if d == pb else s == pb or s in f.dom[pb])]
                if len(side) == 1 and w is not None:
                    ok = (f.succ[d][0] == side[0]) == bool(w)
                elif w is None and env:
                    ok = None
            r = sub_(o)
            if ok is None:
                return None
            if ok:
                hit.append(r)
        return hit[0] if hit and all(h == hit[0] for h in hit) else None
    if x.op in ("sext", "zext", "trunc"):
        return sub_(x.o[0])
    leaves.add(c)
    return env.get(c)


AXES = {"vgid_tmpl": (0, 1, 2), "vgdim_tmpl": (0, 1, 2), "egid_tmpl0": (1, 2), "egid_tmpl1": (0, 2), "egid_tmpl2": (0, 1), "fgid_tmpl0": (0,), "fgid_tmpl1": (1,), "fgid_tmpl2": (2,)}


def generator(P, R):
    f = P.funcs.get("MESH_Gen_Structured")
    if f is None or len(f.args) < 9:
        R.undec("use", "MESH_Gen_Structured")
        return
    dims = [("a", len(f.args) - 3 + k) for k in range(3)]
    for x in f.instrs():
        if x.op != "load":
            continue
        g = gindex(f, x.o[0])
        if g is None:
            continue
        y = f.get(g[0])
        nm = local_name(f, g[0]) if y is not None and y.op == "alloca" else g[0][1].split(".")[-1] if g[0][0] == "g" else None
        if nm not in AXES or len(g[1]) != len(AXES[nm]):
            continue
        for i, ax in zip(g[1], AXES[nm]):
            got = {k for k in range(3) if dims[k] in sources(f, i)}
            if not got:
                R.undec("use", "MESH_Gen_Structured %s" % nm)
                continue
            R.ob("use", "MESH_Gen_Structured %s" % nm, 1)
            if got != {ax}:
                R.bad("use", "MESH_Gen_Structured|%s" % nm, x.loc, "MESH_Gen_Structured looks up %s with a position along another axis" % nm)


def sources(f, v):
    """arguments that decide the value: operands, and divisors in the tests between the values"""
    out, todo, seen = set(), [canon(f, v)], set()
    while todo:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        if v[0] == "a":
            out.add(v)
        x = f.get(v)
        if x is None or x.op in ("load", "call"):
            continue
        if x.op == "phi":
            head = x.b in f.loops()
            if head:
                continue
            for o, pb in x.o:
                todo.append(canon(f, o))
                for d in [pb] + list(f.pred[pb]):
                    t = f.blocks[d][-1]
                    if t.op == "br" and t.o and len(f.succ[d]) == 2 and d in f.dom[x.b] | {pb} and not any(d == h for h in f.loops()):
                        todo.append(canon(f, t.o[0]))
        else:
            todo += [canon(f, o) for o in x.o]
    return out


def lowest(f, v, depth=0):
    """smallest value if it is a counter or a sum with a constant, or None"""
    v = canon(f, v)
    if v[0] == "c":
        return v[1]
    x = f.get(v)
    if x is None or depth > 6:
        return None
    if x.op in ("sext", "zext"):
        return lowest(f, x.o[0], depth + 1)
    if x.op == "add":
        a, b = lowest(f, x.o[0], depth + 1), lowest(f, x.o[1], depth + 1)
        return None if a is None or b is None else a + b
    if x.op == "phi":
        for o, pb in x.o:
            y = f.get(o)
            if o[0] == "c":
                start = o[1]
                rest = [w for w, q in x.o if w != o]
                if len(rest) == 1:
                    z = f.get(rest[0])
                    if z is not None and z.op == "add" and ("i", x.i) in z.o and any(q[0] == "c" and q[1] > 0 for q in z.o):
                        return start
        return None
    if x.op in ("srem", "urem"):
        return 0
    return None
