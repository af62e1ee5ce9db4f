"""Queries leave the mesh alone and give the caller a list of its own."""
import os
import ir, summ, ownlists, mut
from core import Broken
RULES = {
    "pure": "a query operation on a mesh of a full representation stores to nothing but its own temporaries, output arguments and a traversal cursor, "
            "directly or through anything it calls",
    "owned-result": "the list a query returns is one it acquired itself (or none), never a list that belongs to the mesh or to an entity; the "
                    "*_List operations, documented to return the mesh's own list, return exactly that list",
}
EXPLAIN = ("Interprocedural mutation summaries (which parameters' objects, or other mesh state, a function stores to), computed to a fixpoint over the "
           "call graph with dispatch tables resolved for one representation at a time; origins of every returned list by backward dataflow.")
ASSUME = ["lib/pure.txt names the query operations (confirmed pure on the reference tree)",
          "reduced representations build temporary edges and faces inside queries and are excluded from the purity rule"]
CONFIGS = ["default"]
CONFIGS_THOROUGH = ["default", "serial"]
MIN = {"pure": 400, "owned-result": 80}
HERE = os.path.dirname(os.path.abspath(__file__))
# operations documented to return the mesh's own list
INTERNAL = {"MESH_%s%s_List" % (k, e) for k in ("", "Ghost", "Overlap") for e in ("Vertex", "Edge", "Face", "Region")}


def run(P, R):
    names = [l.strip() for l in open(os.path.join(HERE, "..", "lib", "pure.txt")) if l.strip()]
    fresh = ownlists.list_fresh(P)
    for rep in ("F1", "F4"):
        M = mut.Mut(P, rep, fresh)
        for n in names:
            f = P.funcs.get(n)
            if f is None:
                continue
            R.ob("pure", f.file, sample="%s on %s" % (n, rep))
            r = M.impure(n)
            if r:
                (line, t), what = r
                R.bad("pure", n, "%s:%d" % (f.file, line), "query %s changes %s on representation %s: %s" % (n, what, rep, M.chain(n)))
    for n, f in sorted(P.funcs.items()):
        if not f.dret or "List" not in str(f.dret) or f.file.endswith("util/List.c"):
            continue
        for r in f.rets():
            if not r.o:
                continue
            for v in summ.origins(f, r.o[0]):
                x = f.get(v)
                R.ob("owned-result", n)
                if v[0] in ("null",):
                    continue
                if x is not None and x.op == "call" and any(t in fresh for t in P.targets(x)):
                    continue
                if x is not None and x.op == "call" and not any(t in P.funcs for t in P.targets(x)):
                    continue
                if n in INTERNAL:
                    continue
                if x is not None and x.op == "call":
                    # returns what another function returned: judged there, unless it is the mesh's own list
                    if not any(t in INTERNAL for t in P.targets(x)):
                        continue
                R.bad("owned-result", n, "%s:%d" % (f.file, r.line), "%s can return a list it does not own (%s)" % (n, ir.show(f, ir.expr(f, v))))
