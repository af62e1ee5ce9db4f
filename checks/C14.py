"""C14: a routine leaves no temporary attribute, marker or mark behind."""
import core, own, summ, ir
from ir import canon, strip
from own import Undecided

RULES = {
    "attribute": "an attribute that a routine creates under a fixed name for its own use is deleted on every path to its return (or, if another routine "
                 "looks it up by that name, by a routine that looks it up); attributes that file formats document (node_map, elem_map, elemblock) stay",
    "marker": "a marker a routine reserves is freed exactly once on every path to its return",
    "mark": "everything a routine marks with a marker it reserved is unmarked before it frees the marker",
    "use-after-release": "an attribute is not used, and a marker not used or freed, after it was deleted or freed",
}
EXPLAIN = ("Path-sensitive ownership dataflow from every MAttrib_New with a constant name and every MSTK_GetMarker (compiled with and without markers), with "
           "summaries of what callees do with the attribute; for marks, every path from a marking call to the release of its marker must pass an unmarking "
           "call or a loop that unmarks.")
ASSUME = ["attributes with computed names (read from a file, copied from another mesh) are the routine's result",
          "an unmarking loop visits what the marking loop marked"]
CONFIGS = ["default", "markers"]
CONFIGS_THOROUGH = ["default", "markers", "serial"]
MIN = {"attribute": 25}
DOCUMENTED = {"node_map", "elem_map", "elemblock"}
MARK = {"MEnt_Mark": 1, "List_Mark": 1, "MSet_Mark": 1}
UNMARK = {"MEnt_Unmark": 1, "List_Unmark": 1, "MSet_Unmark": 1}


def cname(f, v):
    e = ir.expr(f, v)
    return e[1] if isinstance(e, tuple) and len(e) == 2 and e[0] == "s" else None


def run(P, R):
    att = own.Spec("attribute", None, summ.ArgEffects(
        P, {("MAttrib_Delete", 0)}, builtin={n: "borrow" for n in P.funcs if (n.startswith("MAttrib_") and n not in ("MAttrib_Delete", "MAttrib_New"))
                                              or n.startswith("MEnt_")}).at)
    mk = own.Spec("marker", None, summ.ArgEffects(P, {("MSTK_FreeMarker", 0)}, builtin={n: "borrow" for n in P.funcs if "Mark" in n and n != "MSTK_FreeMarker"}).at)
    looked = {}
    for f in P.funcs.values():
        for x in f.calls("MESH_AttribByName"):
            n = cname(f, x.o[1])
            if n:
                looked.setdefault(n, []).append(x)
    items = []
    for n, f in sorted(P.funcs.items()):
        for x in f.calls("MAttrib_New"):
            c = cname(f, x.o[1])
            if c is not None and c not in DOCUMENTED:
                items.append((n, x.i, "attribute", c))
        for x in f.calls("MSTK_GetMarker"):
            items.append((n, x.i, "marker", x.v or "marker"))

    def one(it):
        x = P.funcs[it[0]].ins[it[1]]
        try:
            return [(r.kind, r.at.i, r.detail) for r in own.analyse(att if it[2] == "attribute" else mk, x)]
        except Undecided:
            return None
    for (n, i, rule, c), res in zip(items, core.parallel(items, one)):
        f = P.funcs[n]; x = f.ins[i]
        R.ob(rule, f.file, sample="%s: %s %s at line %d" % (n, rule, c, x.line))
        if res is None:
            R.undec(rule, "%s: %s" % (n, c)); continue
        for kind, ai, det in res:
            at = f.ins[ai]
            if kind == "leak":
                if rule == "attribute" and not own_delete(x) and any(deleted_elsewhere(y) and calls(P, y.f, n) for y in looked.get(c, ())):
                    continue
                R.bad(rule, "%s|%s" % (n, c), x.loc, "%s of %s is left behind on a path to %s" % (c if rule == "attribute" else "a marker", n, det))
            else:
                R.bad("use-after-release", "%s|%s" % (n, c), "%s:%d" % (f.file, at.line),
                      "%s: %s %s is used after it was released (line %d)" % (n, rule, c, at.line))
    for n, f in sorted(P.funcs.items()):
        marks(P, R, n, f)


def own_delete(x):
    """the routine that creates the attribute deletes it itself, on some path"""
    return any(("i", x.i) in summ.origins(x.f, d.o[0]) for d in x.f.calls("MAttrib_Delete"))


def calls(P, f, name):
    """f calls the function of this name, directly or not"""
    seen, work = set(), [f]
    while work:
        g = work.pop()
        for x in g.calls():
            for t in P.targets(x) or ():
                m = t if isinstance(t, str) else t.name
                if m == name:
                    return True
                if m in P.funcs and m not in seen:
                    seen.add(m); work.append(P.funcs[m])
    return False


def deleted_elsewhere(y):
    """the attribute looked up by this call is deleted by the same routine"""
    f = y.f
    return any(("i", y.i) in summ.origins(f, d.o[0]) for d in f.calls("MAttrib_Delete"))


def marks(P, R, n, f):
    got = {("i", x.i): x for x in f.calls("MSTK_GetMarker")}
    if not got:
        return
    for x in f.calls():
        if x.callee not in MARK:
            continue
        for m in summ.origins(f, x.o[MARK[x.callee]]) & set(got):
            un = [u for u in f.calls() if u.callee in UNMARK and m in summ.origins(f, u.o[UNMARK[u.callee]])]
            free = [u for u in f.calls("MSTK_FreeMarker") if m in summ.origins(f, u.o[0])]
            R.ob("mark", f.file, sample="%s: %s at line %d" % (n, x.callee, x.line))
            # blocks that unmark, or head a loop that does
            stop = {u.b for u in un}
            for h, body in f.loops().items():
                if x.b not in body and any(u.b in body for u in un):
                    stop.add(h)
            # a test that some entity was marked: a counter incremented where marking happens is not zero
            for g in range(len(f.blocks)):
                if g not in stop and len(f.succ[g]) == 1 and f.succ[g][0] in stop and len(f.pred[g]) == 1:
                    stop.add(g)
            for g in range(len(f.blocks)):
                t = f.blocks[g][-1]
                if t.op == "br" and t.o and g not in stop and any(s in stop for s in f.succ[g]) and counts(f, t.o[0], x.b):
                    stop.add(g)
            same = any(u.b == x.b and f.blocks[x.b].index(u) > f.blocks[x.b].index(x) for u in un)
            if same:
                continue
            seen, work = set(), list(f.succ[x.b])
            while work:
                b = work.pop()
                if b in seen or b in stop:
                    continue
                seen.add(b); work += f.succ[b]
            for u in free:
                if u.b in seen:
                    R.bad("mark", "%s|%s" % (n, x.callee), x.loc, "%s: entities marked at line %d are not unmarked before the marker is freed (line %d)" % (n, x.line, u.line))
                    break


def counts(f, cond, blk):
    """the condition tests a variable that is incremented in block blk, or where blk is executed too"""
    seen, work = set(), [cond]
    while work:
        v = work.pop()
        if v[0] != "i" or v[1] in seen:
            continue
        seen.add(v[1])
        y = f.ins[v[1]]
        if y.op == "phi":
            work += [w for w, _ in y.o]
        elif y.op == "icmp" or y.op in ir.CAST:
            work += list(y.o)
        elif y.op == "add":
            if y.b == blk or (y.b in f.pdom[blk] and blk in f.dom[y.b]):
                return True
            work += list(y.o)
    return False
