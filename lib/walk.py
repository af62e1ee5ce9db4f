"""Generic path walker: follows every path of a function from a point, carrying a
hashable state and the truth of branch conditions (same facts as own.py).

step(x, st)            -> new state, or STOP, for every instruction (phis excluded)
edge(k, val, st)       -> new state or STOP (path impossible)          (optional)
enter(b, prev, st)     -> new state when a block is entered             (optional)
visit order is depth first; equal (block, prev, state, facts) are merged."""
from own import (interesting_conds, prune, dominating_facts, consistent, live_conds, through_phi, key_vals, Undecided)
from ir import cond_key, canon
STOP = object()


def walk(f, start, state, step, edge=None, enter=None, facts=True, limit=60000, keep=None):
    ic = interesting_conds(f)
    b0, p0 = start
    none = frozenset()
    fd0 = prune(f, b0, dominating_facts(f, b0), keep) if facts else none
    stack = [(b0, p0, None, state, fd0)]
    seen = set()
    steps = 0
    while stack:
        b, pos, prev, st, fs = stack.pop()
        key = (b, pos, prev if pos == 0 else None, st, fs)
        if key in seen:
            continue
        seen.add(key)
        steps += 1
        if steps > limit:
            raise Undecided(f.name)
        blk = f.blocks[b]
        fd = dict(fs)
        if pos == 0 and prev is not None:
            if facts:
                defs = f._defs[b]
                carried = {}
                for k in live_conds(f)[b][0]:
                    k2 = through_phi(f, prev, b, k)
                    if k2 is not None and k2 in fd:
                        carried[k] = fd[k2]
                for k in [k for k in fd if any(v in defs for v in key_vals(k))]:
                    del fd[k]
                fd.update(carried)
                for x in blk:
                    if x.op != "phi":
                        break
                    for v, pb in x.o:
                        if pb == prev and v[0] in ("c", "null"):
                            me = ("i", x.i)
                            for k in ic:
                                if len(k) == 3 and k[0] == me and k[2][0] == v[0]:
                                    if k[1] == "eq":
                                        fd[k] = (v == k[2])
                                    elif v[0] == "c" and k[1] in ("slt", "sgt"):
                                        fd[k] = (v[1] < k[2][1]) if k[1] == "slt" else (v[1] > k[2][1])
            if enter is not None:
                st = enter(b, prev, st)
                if st is STOP:
                    continue
        stop = False
        for x in blk[pos:]:
            if x.op == "phi":
                continue
            if x.op == "call" and f.prog.noreturn_call(x):
                stop = True
                break
            st = step(x, st)
            if st is STOP:
                stop = True
                break
        if stop:
            continue
        t = blk[-1]

        def go(s, k, val, nf):
            s2 = st
            if k is not None and edge is not None:
                s2 = edge(k, val, st)
                if s2 is STOP:
                    return
            stack.append((s, 0, b, s2, prune(f, s, nf, keep, b) if facts else none))
        if t.op == "br" and t.o:
            k, pol = cond_key(f, t.o[0])
            for idx, s in enumerate(t.succ):
                val = (idx == 0) == pol
                if s not in f.succ[b]:
                    continue
                if facts and not consistent(fd, k, val):
                    continue
                nf = dict(fd)
                nf[k] = val
                go(s, k, val, nf)
        elif t.op == "switch":
            sv = canon(f, t.o[0])
            for c, s in t.cases:
                k = (sv, "eq", ("c", c))
                if facts and not consistent(fd, k, True):
                    continue
                nf = dict(fd)
                if k in ic:
                    nf[k] = True
                go(s, k, True, nf)
            nf = dict(fd); ok = True
            for c, s in t.cases:
                k = (sv, "eq", ("c", c))
                if facts and not consistent(fd, k, False):
                    ok = False
                if k in ic:
                    nf[k] = False
            if ok and edge is not None:
                for c, s in t.cases:
                    st = edge((sv, "eq", ("c", c)), False, st)
                    if st is STOP:
                        ok = False
                        break
            if ok:
                go(t.default, None, None, nf)
        else:
            for s in f.succ[b]:
                go(s, None, None, fd)


def walk_best(f, start, state, step, **kw):
    """with path facts if that terminates, without otherwise (then returns False: reports are imprecise)"""
    try:
        walk(f, start, state, step, **kw)
        return True
    except Undecided:
        return False
