"""Ownership (acquire / release) analysis on paths.

A resource is the value returned by an acquiring call.  From that call every
path is followed; the state of a path is (status, SSA names that currently hold
the resource, truth of branch conditions met more than once).  Equal states are
merged, loops terminate because the state space of a function is finite.
"""
from collections import defaultdict
import ir
from ir import strip, canon, cond_key, ops

LIMIT = 20000


class Undecided(Exception):
    pass


class Spec:
    """acquire(ins)->bool ; release(ins, argindex)->bool ; effect(ins,argindex)->
    'borrow'|'release'|'escape'|'maybe'"""
    allocators = frozenset(["malloc", "calloc", "realloc", "List_New", "List_Copy"])

    def allocated(self, f, v):
        x = f.get(v)
        return x is not None and x.op == "call" and x.callee in self.allocators

    positive = None      # positive(f, v): v is a count known to be > 0

    def __init__(self, name, acquire, effect):
        self.name, self.acquire, self.effect = name, acquire, effect


def interesting_conds(f):
    """keys of conditions branched on in more than one block"""
    if getattr(f, "_ic", None) is None:
        cnt = defaultdict(int)
        for b in f.reach:
            t = f.blocks[b][-1]
            if t.op == "br" and t.o:
                cnt[cond_key(f, t.o[0])[0]] += 1
            elif t.op == "switch":
                for c, _ in t.cases:
                    cnt[(canon(f, t.o[0]), "eq", ("c", c))] += 1
        f._ic = {k for k, n in cnt.items() if n > 1 or
                 (len(k) == 3 and f.get(k[0]) is not None and f.get(k[0]).op == "phi" and k[2][0] in ("c", "null"))}
        # values defined per block (to drop facts when a value is redefined)
        ir.memver(f)
        f._defs = {b: {("i", x.i) for x in f.blocks[b]} | f._mvdefs.get(b, set()) for b in f.reach}
    return f._ic


def through_phi(f, b, s, k):
    """key k at block s as a key on the value that reaches it from block b"""
    if len(k) != 3 or k[0][0] != "i":
        return None
    x = f.get(k[0])
    if x is None or x.op != "phi" or x.b != s:
        return None
    for v, pb in x.o:
        if pb == b and v[0] in ("i", "a"):
            return (canon(f, v), k[1], k[2])
    return None


def live_conds(f):
    """block -> keys of interesting conditions still branched on from that block on"""
    if getattr(f, "_lc", None) is None:
        ic = interesting_conds(f)
        gen = {}
        for b in f.reach:
            t = f.blocks[b][-1]
            g = set()
            if t.op == "br" and t.o:
                k = cond_key(f, t.o[0])[0]
                g.add(k)
            elif t.op == "switch":
                for c, _ in t.cases:
                    g.add((canon(f, t.o[0]), "eq", ("c", c)))
            gen[b] = frozenset(g)
        live = {b: set(gen[b]) for b in f.reach}
        ch = True
        order = f.rpo()[::-1]
        while ch:
            ch = False
            for b in order:
                n = len(live[b])
                for s in f.succ[b]:
                    for k in list(live[s]):
                        k2 = through_phi(f, b, s, k)
                        if k2 is not None:
                            live[b].add(k2)
                    # a key is dead above the block that defines its values
                    d = f._defs[s]
                    live[b] |= {k for k in live[s] if k in gen[b] or not any(v in d for v in key_vals(k))}
                if len(live[b]) != n:
                    ch = True
        f._lc = {}
        for b in f.reach:
            vals = {k[0] for k in live[b] if len(k) == 3}
            f._lc[b] = (frozenset(live[b]), frozenset(vals))
    return f._lc


def prune(f, b, fd, keep=None, pred=None):
    """drop facts that no later branch can depend on"""
    live, vals = live_conds(f)[b]
    if pred is not None:
        tk = f.__dict__.setdefault("_tk", {})
        t = tk.get((pred, b))
        if t is None:
            t = frozenset(filter(None, (through_phi(f, pred, b, k) for k in live)))
            tk[(pred, b)] = t
        if t:
            live = live | t
    out = {}
    for k, v in fd.items():
        if k in live or (len(k) == 3 and k[0] in vals):
            if keep is None or k in keep or (len(k) == 3 and k[0] in keep):
                out[k] = v
    return frozenset(out.items())


def dominating_facts(f, b):
    """truth of the branch conditions every path to block b has taken"""
    fd = {}
    for d in f.dom[b]:
        t = f.blocks[d][-1]
        if d == b:
            continue
        if t.op == "br" and t.o and len(f.succ[d]) == 2:
            for idx, s in enumerate(t.succ):
                if s in f.dom[b] and f.pred[s] == [d] and t.succ[0] != t.succ[1]:
                    k, pol = cond_key(f, t.o[0])
                    fd[k] = (idx == 0) == pol
        elif t.op == "switch":
            sv = canon(f, t.o[0])
            for c, s in t.cases:
                if s in f.dom[b] and f.pred[s] == [d] and sum(1 for q in t.cases if q[1] == s) == 1 and s != t.default:
                    fd[(sv, "eq", ("c", c))] = True
    return fd


def resource_conds(spec, acq):
    """conditions that decide whether the resource is acquired, released or renamed"""
    f = acq.f
    al = {("i", acq.i)}
    work = list(al)
    blocks = {acq.b}
    while work:
        v = work.pop()
        for x in f.uses.get(v, ()):
            if x.op in ir.CAST or x.op in ("phi", "select"):
                if x.op == "phi":
                    for a, pb in x.o:
                        if strip(f, a) in al or a[0] == "null":
                            blocks.add(pb)
                y = ("i", x.i)
                if y not in al:
                    al.add(y); work.append(y)
            elif x.op == "call":
                if any(spec.effect(x, i) != "borrow" for i, a in enumerate(x.o) if a == v):
                    blocks.add(x.b)
            elif x.op == "store" and x.o[0] == v:
                blocks.add(x.b)
    keys = set()
    for b in blocks:
        for (a, _) in f.all_control_deps(b):
            t = f.blocks[a][-1]
            if t.op == "br" and t.o:
                keys.add(cond_key(f, t.o[0])[0])
            elif t.op == "switch":
                keys.add(canon(f, t.o[0]))
    # the same condition on the values a phi merges
    work = [k for k in keys if len(k) == 3 and isinstance(k[0], tuple)]
    while work:
        k = work.pop()
        x = f.get(k[0])
        if x is None or x.op != "phi":
            continue
        for v, _ in x.o:
            k2 = (canon(f, v), k[1], k[2])
            if v[0] in ("i", "a") and k2 not in keys:
                keys.add(k2); work.append(k2)
    return keys | {k[0] for k in keys if len(k) == 3}


def key_vals(k):
    if isinstance(k, tuple) and len(k) == 3 and isinstance(k[0], tuple):
        return [v for v in (k[0], k[2]) if v[0] in ("i", "m")]
    return [k] if k[0] in ("i", "m") else []


def consistent(facts, key, val):
    """is (key==val) compatible with the facts? facts: dict"""
    if key in facts:
        return facts[key] == val
    if len(key) == 3 and key[1] == "eq":
        a, _, b = key
        for (k, v) in facts.items():
            if len(k) == 3 and k[1] == "eq" and k[0] == a and k[2] != b and v is True \
                    and k[2][0] in ("c", "null") and b[0] in ("c", "null"):
                # a == k[2], so a == b is False
                return val is False
        if b[0] == "c":
            for (k, v) in facts.items():
                if len(k) == 3 and k[0] == a and k[2][0] == "c" and k[1] in ("slt", "sgt"):
                    c, n = k[2][1], b[1]
                    holds = (n < c) if k[1] == "slt" else (n > c)
                    if holds != v and val is True:
                        return False
    if len(key) == 3 and key[1] in ("slt", "sgt") and key[2][0] == "c":
        a, p, b = key
        for (k, v) in facts.items():
            if len(k) == 3 and k[0] == a and k[1] == "eq" and k[2][0] == "c" and v is True:
                n = k[2][1]
                holds = (n < b[1]) if p == "slt" else (n > b[1])
                return holds == val
    return True


class Report:
    def __init__(self, kind, acq, at, detail="", path=()):
        self.kind, self.acq, self.at, self.detail, self.path = kind, acq, at, detail, path


def derive(f, v):
    """ssa values derived from a pointer by casts"""
    return v


def analyse(spec, acq, start_alias=None):
    """follow the resource returned by call `acq`; yields Reports"""
    try:
        return analyse1(spec, acq, start_alias, None)
    except Undecided:
        pass
    try:
        return analyse1(spec, acq, start_alias, resource_conds(spec, acq))
    except Undecided:
        pass
    # without any path facts: sound, so silence is a decision; reports are not
    if analyse1(spec, acq, start_alias, frozenset()):
        raise Undecided(acq.f.name)
    return []


def analyse1(spec, acq, start_alias, keep):
    f = acq.f
    ic = interesting_conds(f)
    out = {}
    a0 = frozenset([("i", acq.i)]) if start_alias is None else frozenset(start_alias)
    # status: 'own' ; 'rel' (released; at) ; 'esc'
    start = (acq.b, acq.pos + 1, None, a0, "own", prune(f, acq.b, dominating_facts(f, acq.b), keep))
    seen = set()
    stack = [start]
    steps = 0
    while stack:
        b, pos, prev, al, st, facts = stack.pop()
        key = (b, pos, prev if pos == 0 else None, al, st, facts)
        if key in seen:
            continue
        seen.add(key)
        steps += 1
        if steps > LIMIT:
            raise Undecided(f.name)
        blk = f.blocks[b]
        alias = set(al)
        fd = dict(facts)
        if pos == 0:
            # redefinition of facts' values and aliases in this block
            defs = f._defs[b]
            newal = set()
            for x in blk:
                if x.op != "phi":
                    break
                for v, pb in x.o:
                    if pb == prev:
                        if strip(f, v) in alias or v in alias:
                            newal.add(("i", x.i))
                        break
            # phi facts: a phi whose incoming value is known
            carried = {}
            for k in live_conds(f)[b][0]:
                k2 = through_phi(f, prev, b, k)
                if k2 is None:
                    continue
                if k2 in fd:
                    carried[k] = fd[k2]
                elif k2[1] == "eq" and k2[2] in (("null",), ("c", 0)) and spec.allocated(f, k2[0]):
                    carried[k] = False
            dead = [k for k in fd if any(v in defs for v in key_vals(k))]
            for k in dead:
                del fd[k]
            fd.update(carried)
            alias -= defs
            alias |= newal
            for x in blk:
                if x.op != "phi":
                    break
                for v, pb in x.o:
                    if pb == prev and spec.positive is not None and v[0] == "i" and spec.positive(f, v):
                        me = ("i", x.i)
                        for k in ic:
                            if len(k) == 3 and k[0] == me and k[2][0] == "c" and k[2][1] <= 0:
                                if k[1] == "eq" or k[1] == "slt":
                                    fd[k] = False
                                elif k[1] == "sgt":
                                    fd[k] = True
                            if len(k) == 3 and k[0] == me and k[1] == "slt" and k[2] == ("c", 1):
                                fd[k] = False
                    if pb == prev and v[0] in ("c", "null"):
                        me = ("i", x.i)
                        for k in ic:
                            if len(k) == 3 and k[0] == me and k[2][0] in ("c", "null") and v[0] == k[2][0]:
                                if k[1] == "eq":
                                    fd[k] = (v == k[2])
                                elif v[0] == "c" and k[1] in ("slt", "sgt"):
                                    fd[k] = (v[1] < k[2][1]) if k[1] == "slt" else (v[1] > k[2][1])
        status = st
        stop = False
        i = pos
        while i < len(blk):
            x = blk[i]
            if x.op == "phi":
                i += 1; continue
            if x.op in ir.CAST:
                if x.o[0] in alias:
                    alias.add(("i", x.i))
                i += 1; continue
            if ("i", x.i) in alias and x is not acq:
                alias.discard(("i", x.i))
            if x is acq and start_alias is None:
                # allocated again on a loop iteration while still held
                if status == "own" and alias:
                    # still reachable through another name: keep following elsewhere
                    pass
                if status == "own" and not alias:
                    out.setdefault(("leak", x.i), Report("leak", acq, x, "overwritten on the next iteration"))
                stop = True
                break
            if x.op == "call":
                for ai, a in enumerate(x.o):
                    sa = strip(f, a)
                    if a in alias or sa in alias:
                        if status != "own":
                            if status[0] == "rel":
                                out.setdefault(("use", x.i), Report("use-after-release", acq, x, "released at line %d" % status[1]))
                                stop = True
                            break
                        e = spec.effect(x, ai)
                        if e == "release":
                            status = ("rel", x.line)
                        elif e in ("escape", "maybe"):
                            status = "esc"
                if stop:
                    break
                if status == "esc":
                    stop = True
                    break
                if f.prog.noreturn_call(x):
                    stop = True
                    break
            elif x.op == "store":
                sv = strip(f, x.o[0])
                if x.o[0] in alias or sv in alias:
                    if status == "own":
                        status = "esc"; stop = True
                        break
                    # storing a released pointer: dangling only if not overwritten; ignore
                if status != "own" and status[0] == "rel" and base_of(f, x.o[1]) in alias:
                    out.setdefault(("use", x.i), Report("use-after-release", acq, x, "released at line %d" % status[1]))
                    stop = True; break
            elif x.op == "load":
                if status != "own" and status[0] == "rel" and base_of(f, x.o[0]) in alias:
                    out.setdefault(("use", x.i), Report("use-after-release", acq, x, "released at line %d" % status[1]))
                    stop = True; break
            elif x.op == "ret":
                if x.o and (x.o[0] in alias or strip(f, x.o[0]) in alias):
                    if status != "own" and status[0] == "rel":
                        out.setdefault(("use", x.i), Report("use-after-release", acq, x, "returned after release at line %d" % status[1]))
                elif status == "own":
                    out.setdefault(("leak", x.i), Report("leak", acq, x, "return at line %d" % retline(f, b, prev, x)))
                stop = True
                break
            elif x.op == "select":
                if any(y in alias for y in x.o[1:]):
                    alias.add(("i", x.i))
            elif x.op == "getelementptr" or x.op == "br" or x.op == "switch" or x.op == "icmp":
                pass
            i += 1
        if stop:
            continue
        t = blk[-1]
        if t.op == "br" and t.o:
            k, pol = cond_key(f, t.o[0])
            for idx, s in enumerate(t.succ):
                val = (idx == 0) == pol
                # null tests of the resource itself
                if len(k) == 3 and k[1] == "eq" and k[2] in (("null",), ("c", 0)) and (k[0] in alias):
                    if status == "own" and val:
                        continue        # acquired value is not null
                    if status != "own" and val:
                        continue
                if len(k) == 3 and k[1] == "eq" and k[2][0] in ("null", "c") and k[0] in alias and val:
                    continue
                if spec.positive is not None and len(k) == 3 and k[2][0] == "c" and k[0][0] == "i" and spec.positive(f, k[0]):
                    if (k[1] == "eq" and k[2][1] <= 0 and val) or (k[1] == "slt" and k[2][1] <= 1 and val) or \
                            (k[1] == "sgt" and k[2][1] <= 0 and not val):
                        continue
                if not consistent(fd, k, val):
                    continue
                if val and len(k) == 3 and k[1] == "eq" and k[2] == ("null",) and spec.allocated(f, k[0]):
                    continue
                nf = dict(fd); nf[k] = val
                if s in f.succ[b]:
                    stack.append((s, 0, b, frozenset(alias), status, prune(f, s, nf, keep, b)))
        elif t.op == "switch":
            sv = canon(f, t.o[0])
            for c, s in t.cases:
                k = (sv, "eq", ("c", c))
                if not consistent(fd, k, True):
                    continue
                nf = dict(fd)
                if k in ic:
                    nf[k] = True
                stack.append((s, 0, b, frozenset(alias), status, prune(f, s, nf, keep, b)))
            nf = dict(fd); ok = True
            for c, s in t.cases:
                k = (sv, "eq", ("c", c))
                if not consistent(fd, k, False):
                    ok = False
                if k in ic:
                    nf[k] = False
            if ok:
                stack.append((t.default, 0, b, frozenset(alias), status, prune(f, t.default, nf, keep, b)))
        else:
            for s in f.succ[b]:
                stack.append((s, 0, b, frozenset(alias), status, prune(f, s, fd, keep, b)))
    return list(out.values())


def relevant(ic, k):
    if len(k) != 3:
        return False
    return any(len(q) == 3 and q[0] == k[0] for q in ic)


def retline(f, b, prev, x):
    """a line that tells the exits apart"""
    if prev is not None and len(f.pred[b]) > 1:
        t = f.blocks[prev][-1]
        return t.line or x.line
    return x.line


def base_of(f, v):
    while True:
        x = f.get(v)
        if x is None:
            return v
        if x.op == "getelementptr" or x.op in ir.CAST:
            v = x.o[0]
        else:
            return v
