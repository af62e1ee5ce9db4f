"""Temporary lists are released exactly once on every path."""
import core, own, ownlists
RULES = {
    "leak": "every list acquired (List_New, List_Copy or any function that returns a list it acquired) is, on every path from the "
            "acquisition to a return of the acquiring function, released, returned, or stored where it outlives the call",
    "use-after-release": "on no path is a list used, returned or released again after its release",
}
EXPLAIN = ("Path-sensitive ownership dataflow: from every acquiring call, all paths are followed with the set of SSA names holding the list, "
           "its status, and the truth of branch conditions that are tested again; whether a callee releases, keeps or only reads its "
           "argument is computed bottom-up from the callees' bodies.")
ASSUME = ["List_Delete is the only releasing primitive; the implementation of util/List.c itself is analysed by C02 (heap blocks)",
          "adjacency queries return no list instead of an empty one", "MSTK_Report(...,MSTK_FATAL) does not return"]
CONFIGS = ["default"]
CONFIGS_THOROUGH = ["default", "markers", "serial"]
MIN = {"acquisition": 400}


def run(P, R):
    fresh = ownlists.list_fresh(P)
    spec = ownlists.list_spec(P)
    work = []
    for f in P.funcs.values():
        if f.file.endswith("util/List.c"):
            continue
        for x in f.calls():
            if any(c in fresh for c in P.targets(x)):
                work.append(x)
    byf = {}
    for x in work:
        byf.setdefault(x.f.name, []).append(x)

    def one(fn):
        out = []
        for x in byf[fn]:
            try:
                out.append((x.i, [(r.kind, r.at.i, r.detail) for r in own.analyse(spec, x)], None))
            except own.Undecided:
                out.append((x.i, [], "undecided"))
        return out
    names = sorted(byf, key=lambda n: -len(byf[n]))
    for fn, res in zip(names, core.parallel(names, one)):
        f = P.funcs[fn]
        for xi, reps, und in res:
            x = f.ins[xi]
            what = P.targets(x)[0] if len(P.targets(x)) == 1 else "*" + (P.table_of(x) or "?")
            R.ob("acquisition", f.file, sample="%s acquires a list from %s at line %d" % (fn, what, x.line))
            if und:
                R.undec("leak", "%s: list of %s" % (fn, what)); continue
            for kind, ai, det in reps[:1] if False else reps:
                at = f.ins[ai]
                R.bad(kind, "%s|%s" % (fn, what), "%s:%d" % (f.file, x.line),
                      "list acquired from %s in %s: %s" % (what, fn,
                       ("not released on a path to " + det) if kind == "leak" else "%s at line %d (%s)" % (kind, at.line, det)))
