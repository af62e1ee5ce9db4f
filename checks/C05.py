"""Only the caller's communicator is used."""
import ir, summ
from ir import strip
RULES = {
    "mpi-call": "every MPI operation a routine performs uses the communicator the routine was given",
    "pass-on": "every routine that takes a communicator is called with the communicator its caller was given",
    "no-world": "no routine that was not given a communicator uses a predefined one, except for process start-up",
}
EXPLAIN = ("Every MPI call and every call of a function with a communicator parameter is resolved; the communicator argument is traced back "
           "(through phis, casts, locals) to its origin.")
ASSUME = ["communicator parameters are declared MSTK_Comm or MPI_Comm"]
CONFIGS = ["default"]
CONFIGS_THOROUGH = ["default", "markers"]
MIN = {"mpi-call": 200, "pass-on": 60}
# MPI function -> index of its communicator argument
COMM = {"MPI_Send": 5, "MPI_Ssend": 5, "MPI_Bsend": 5, "MPI_Rsend": 5, "MPI_Isend": 5, "MPI_Issend": 5, "MPI_Recv": 5, "MPI_Irecv": 5,
        "MPI_Probe": 2, "MPI_Iprobe": 2, "MPI_Sendrecv": 10, "MPI_Bcast": 4, "MPI_Reduce": 6, "MPI_Allreduce": 5, "MPI_Scan": 5, "MPI_Exscan": 5,
        "MPI_Gather": 7, "MPI_Gatherv": 8, "MPI_Allgather": 6, "MPI_Allgatherv": 7, "MPI_Scatter": 7, "MPI_Scatterv": 8,
        "MPI_Alltoall": 6, "MPI_Alltoallv": 8, "MPI_Barrier": 0, "MPI_Comm_rank": 0, "MPI_Comm_size": 0, "MPI_Abort": 0, "MPI_Comm_dup": 0,
        "MPI_Comm_split": 0}


def comm_args(f):
    return [i for i, t in enumerate(f.dargs) if t and ("MSTK_Comm" in t or "MPI_Comm" in t)]


def origin(f, v):
    """origins of a communicator value"""
    out = set()
    for o in summ.origins(f, ir.canon(f, v)):
        x = f.get(o)
        if x is not None and x.op == "load":
            # a local array or variable holding the communicator
            b = x.o[0]
            st = [u for u in f.uses.get(b, ()) if u.op == "store" and u.o[1] == b]
            a = f.get(b)
            if a is not None and a.op == "alloca" and st:
                for u in st:
                    out |= summ.origins(f, u.o[0])
                continue
        out.add(o)
    return out


def name(f, o):
    if o[0] == "a":
        return f.args[o[1]]
    return ir.show(f, ir.expr(f, o)) if o[0] != "g" else {"ompi_mpi_comm_world": "MPI_COMM_WORLD", "ompi_mpi_comm_self": "MPI_COMM_SELF",
                                                         "ompi_mpi_comm_null": "MPI_COMM_NULL"}.get(o[1], o[1])


def run(P, R):
    cw = {n: comm_args(f) for n, f in P.funcs.items()}
    for n, f in P.funcs.items():
        mine = {("a", i) for i in cw[n]}
        for x in f.instrs():
            if x.op != "call":
                continue
            if x.callee in COMM and x.callee not in P.funcs:
                os_ = origin(f, x.o[COMM[x.callee]])
                R.ob("mpi-call" if mine else "no-world", f.file, sample="%s: %s(...,%s)" % (n, x.callee, ",".join(name(f, o) for o in os_)))
                bad = [o for o in os_ if o not in mine]
                if bad:
                    R.bad("mpi-call" if mine else "no-world", "%s|%s" % (n, x.callee), x.loc, "%s in %s uses communicator %s%s" % (
                        x.callee, n, name(f, bad[0]), "" if not mine else " instead of the one it was given"))
            else:
                ts = P.targets(x)
                idx = sorted({i for t in ts for i in cw.get(t, ())})
                for i in idx:
                    if i >= len(x.o):
                        continue
                    os_ = origin(f, x.o[i])
                    R.ob("pass-on", f.file, sample="%s -> %s" % (n, ts[0]))
                    bad = [o for o in os_ if o not in mine]
                    if bad:
                        R.bad("pass-on", "%s|%s" % (n, ts[0]), x.loc, "%s passes communicator %s to %s%s" % (
                            n, name(f, bad[0]), ts[0], "" if not mine else " instead of the one it was given"))
