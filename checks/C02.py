"""Heap blocks and files are released exactly once on every path."""
import core, own, ownlists, summ
RULES = {
    "leak": "every block or file acquired in src/{base,hilev,util,mod,par,misc} (malloc, calloc, realloc, strdup, fopen) is, on every path "
            "from there to a return of the acquiring function, released, returned or stored where it outlives the call",
    "use-after-release": "on no path (file input/output included) is a block read, written, passed on or released again after its release",
}
EXPLAIN = ("Path-sensitive ownership dataflow over every allocation site: all paths from the allocation are followed with the set of SSA names "
           "holding the block, its status and the truth of branch conditions that are tested again.")
ASSUME = ["allocation functions do not return NULL", "MPI and library calls keep no pointer after they return (requests: see C06)",
          "leaks inside src/io are not decided (see DESIGN.md)"]
CONFIGS = ["default"]
CONFIGS_THOROUGH = ["default", "markers", "serial"]
MIN = {"allocation": 300}
ACQ = {"malloc", "calloc", "realloc", "strdup", "fopen"}


def run(P, R):
    spec = ownlists.heap_spec(P)
    byf = {}
    for f in P.funcs.values():
        for x in f.calls(ACQ):
            byf.setdefault(f.name, []).append(x)

    items = [(n, x) for n in sorted(byf, key=lambda n: -len(P.funcs[n].blocks)) for x in byf[n]]

    def one(it):
        try:
            return [(r.kind, r.at.i, r.detail) for r in own.analyse(spec, it[1])]
        except own.Undecided:
            return None
    for (fn, x), res in zip(items, core.parallel(items, one)):
        f = P.funcs[fn]
        R.ob("allocation", f.file, sample="%s: %s at line %d" % (fn, x.callee, x.line))
        if res is None:
            R.undec("leak", "%s: %s at line %d" % (fn, x.callee, x.line)); continue
        for kind, ai, det in res:
            if kind == "leak" and "/io/" in f.file:
                continue
            R.bad(kind, "%s|%s" % (fn, x.callee), x.loc,
                  "block from %s in %s: %s" % (x.callee, fn, ("not released on a path to " + det) if kind == "leak" else
                                               "used at line %d after it was released (%s)" % (f.ins[ai].line, det)))
