"""What owns what: specifications for the ownership analysis."""
import ir, own, summ
from ir import canon, strip

RA = {n: 0 for n in ("List_Add", "List_ChknAdd", "List_Insert", "List_Inserti", "List_Cat", "List_Compress")}


def list_fresh(P):
    if not hasattr(P, "_lf"):
        P._lf = summ.fresh_functions(P, {"List_New", "List_Copy"}, skip_files=("util/List.c",))
    return P._lf


def positive_counts(P):
    """the count of a list returned by an adjacency query is positive: queries
    answer an empty adjacency with no list at all"""
    adj = list_fresh(P) - {"List_New", "List_Copy"}

    def positive(f, v):
        x = f.get(canon(f, v))
        if x is None or x.op != "call" or x.callee != "List_Num_Entries":
            return False
        os_ = [o for o in summ.origins(f, x.o[0]) if o != ("null",)]
        return bool(os_) and all((y := f.get(o)) is not None and y.op == "call" and any(t in adj for t in P.targets(y)) for o in os_)
    return positive


def list_spec(P):
    eff = summ.ArgEffects(P, {("List_Delete", 0)},
                          builtin={n: "borrow" for n in P.funcs if n.startswith("List_") and n != "List_Delete"},
                          returns_arg=RA)
    s = own.Spec("list", None, eff.at)
    s.positive = positive_counts(P)
    return s


def heap_spec(P):
    eff = summ.ArgEffects(P, {("free", 0), ("realloc", 0), ("fclose", 0)})
    s = own.Spec("heap", None, eff.at)
    s.positive = positive_counts(P)
    return s
