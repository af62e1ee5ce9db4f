"""Driver shared by all checks.

A check is a module checks/<ID>.py with
    TITLE, RULES (dict rule id -> one line), CONFIGS (quick), CONFIGS_THOROUGH,
    run(P, R)  called once per configuration.
R collects obligations (things decided) and violations.  A violation key has no
line numbers, so that it names the same construct after unrelated edits.
"""
import os, sys, json, time, importlib, traceback, multiprocessing
from collections import Counter, OrderedDict
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
import build
from build import Broken

KNOWN = os.path.join(HERE, "known-findings.txt")


class Recorder:
    def __init__(self, pid):
        self.pid = pid
        self.viol = OrderedDict()      # key -> list of dict(where, msg)
        self.counts = Counter()        # rule -> obligations
        self.by = {}                   # rule -> Counter of what was analysed
        self.samples = {}
        self.undecided = []
        self.cfg = None
        self.notes = []
        self.funcs = set()

    def ob(self, rule, what=None, n=1, sample=None):
        self.counts[rule] += n
        if what is not None:
            self.by.setdefault(rule, Counter())[what] += n
        if sample is not None and len(self.samples.setdefault(rule, [])) < 4:
            self.samples[rule].append(sample)

    def bad(self, rule, key, where, msg):
        k = rule + "|" + key
        self.viol.setdefault(k, [])
        e = dict(cfg=self.cfg, where=where, msg=msg)
        for o in self.viol[k]:
            if o["where"] == where and o["msg"] == msg:
                return
        self.viol[k].append(e)

    def undec(self, rule, what):
        self.undecided.append("%s: %s" % (rule, what))

    def note(self, s):
        self.notes.append(s)


def known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("finding:"):
                # finding: property=C01 key=<key> count=<n> :: text
                head, _, text = l[len("finding:"):].partition("::")
                head = head.strip()
                assert head.startswith("property=")
                p, _, rest = head[len("property="):].partition(" ")
                if p != pid:
                    continue
                key, _, cnt = rest.strip()[len("key="):].rpartition(" count=")
                out[key] = (int(cnt), text.strip())
    return out


def parallel(items, worker, procs=8):
    """map worker over items in forked processes (worker sees the parent's memory)"""
    items = list(items)
    if len(items) < 2:
        return [worker(x) for x in items]
    global _W, _I
    _W, _I = worker, items
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(min(procs, os.cpu_count() or 1)) as p:
        return p.map(_call, range(len(items)), chunksize=1)


def _call(i):
    return _W(_I[i])


def main(pid, argv=()):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in argv:
        if a in ("quick", "thorough"):
            tier = a
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    R = Recorder(pid)
    try:
        m = importlib.import_module(pid)
        import ir
        cfgs = list(getattr(m, "CONFIGS", ["default"]))
        if tier == "thorough":
            cfgs = list(getattr(m, "CONFIGS_THOROUGH", cfgs))
        analysed = {}
        for c in cfgs:
            R.cfg = c
            try:
                P = ir.program(c)
            except Broken as e:
                if c == "default" or c == cfgs[0]:
                    raise
                # the library's own build does not use this configuration
                R.notes.append("configuration %s does not compile and was not analysed: %s" % (c, str(e)[:300])); print("NOTE: " + R.notes[-1][:200])
                continue
            analysed[c] = dict(functions=len(P.funcs), instructions=sum(len(b) for f in P.funcs.values() for b in f.blocks),
                               sources=len(build.cfg_sources(c)))
            m.run(P, R)
    except Broken as e:
        print("ERROR property=%s analysis cannot be carried out: %s" % (pid, e))
        return 2
    kn = known(pid)
    nviol = 0
    lines = []
    new = []
    for k, occ in R.viol.items():
        # occurrences in one configuration
        per = Counter(o["cfg"] for o in occ)
        n = max(per.values())
        if k in kn and n <= kn[k][0]:
            lines.append("KNOWN-FINDING: property=%s %s [%s]" % (pid, kn[k][1], k))
        else:
            new.append((k, occ))
    for r, n in getattr(m, "MIN", {}).items():
        if R.counts[r] < n and not new:
            print("ERROR property=%s analysis cannot be carried out: rule %s matched %d instances, expected at least %d: the analysis no longer sees the code" % (pid, r, R.counts[r], n))
            return 2
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    replay = os.path.join(evdir, pid + ".violations.json")
    if os.path.exists(replay):
        os.remove(replay)
    if new:
        with open(replay, "w") as f:
            json.dump([dict(rule=k.split("|")[0], rule_text=m.RULES.get(k.split("|")[0], ""), key=k, occurrences=occ) for k, occ in new], f, indent=1)
    cov = dict(
        explanation="Static analysis of every function of the library, compiled from the current source of /repo "
                    "to LLVM IR and normalised (tool/irdump.cc); nothing is executed. " + m.EXPLAIN,
        analysed=analysed,
        rules=m.RULES,
        obligations_by_rule=dict(R.counts),
        obligations_total=sum(R.counts.values()),
        instances={r: (dict(c) if len(c) <= 60 else dict(distinct=len(c), top=dict(c.most_common(25)))) for r, c in R.by.items()},
        samples=R.samples,
        undecided=R.undecided[:60], undecided_count=len(R.undecided),
        known_findings=len(lines),
        notes=R.notes,
    )
    ev = dict(property=pid, tier=tier, seed=seed, level="other", coverage=cov, wall_s=round(time.time() - t0, 2),
              violations=len(new), assumptions=getattr(m, "ASSUME", []))
    tmp = os.path.join(evdir, pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(evdir, pid + ".json"))
    for l in lines:
        print(l)
    print("%s: %d obligations over %s; %d undecided; %.1fs" %
          (pid, sum(R.counts.values()), ",".join(cfgs), len(R.undecided), time.time() - t0))
    for k, occ in new:
        for o in occ[:6]:
            print("  %s: %s: %s [%s]" % (o["where"], k.split("|")[0], o["msg"], o["cfg"]))
    if new:
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(replay, HERE)))
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1], sys.argv[2:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print("ERROR property=%s internal error" % (sys.argv[1] if len(sys.argv) > 1 else "?"))
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
