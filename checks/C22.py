"""The native mesh file: the reader accepts, and understands, what the writer writes."""
import re
import ir, core
RULES = {
    "accepted": "for every representation and every kind of mesh, the reader goes through the sections the writer produces, in that order, to a successful return, and leaves nothing unread",
    "record": "every record is read with as many fields, of the same types and in the same nesting, as it is written with, and is repeated for the same quantity",
    "meaning": "every field written is used by the reader to set the property it was taken from, on the same kind of entity",
    "number": "an entity is referred to by its position in the order in which its kind is written, and found again by that position",
    "orient": "the sign in front of an edge or face number is minus exactly when the edge or face is used in its reverse direction",
    "digits": "real values are written with sixteen digits or more after the point",
    "apart": "two fields are always separated by white space",
    "every": "no entity is left out of its section; an attribute's entities are left out only when they carry no value of it",
}
EXPLAIN = ("The writer is interpreted abstractly for every representation, for meshes with and without edges, faces and regions, and for every type and entity kind "
           "of attribute: fprintf formats become a tree of literal words and typed fields, each field with the expression it comes from, loops become repeated "
           "records. The reader is then interpreted over each such tree: fscanf consumes it, keyword comparisons are decided on its words, loops consume its "
           "records, and each field is followed to the setter that receives it.")
ASSUME = ["the mesh given to the reader is empty and of unknown representation", "files open and read without error",
          "attribute names contain no white space"]
CONFIGS = ["default"]
CONFIGS_THOROUGH = ["default", "markers", "serial"]
MIN = {"accepted": 150, "record": 9000, "meaning": 4000, "number": 4000, "orient": 300, "digits": 400, "apart": 6000, "every": 20}

REPS = ["F1", "F4", "R1", "R2", "R4"]
UNKNOWN = 5
KINDS = "VEFR"
KNAME = {"Vertex": "V", "Edge": "E", "Face": "F", "Region": "R", "Vertices": "V", "Edges": "E", "Faces": "F", "Regions": "R"}
NEXT = {"MESH_Next_" + n: k for n, k in KNAME.items() if n in ("Vertex", "Edge", "Face", "Region")}
NUM = {"MESH_Num_" + n: k for n, k in KNAME.items() if n.endswith("s") and n != "Faces" or n == "Faces"}
NEW = {"MV_New": "V", "ME_New": "E", "MF_New": "F", "MR_New": "R"}
BYID = {"MESH_VertexFromID": "V", "MESH_EdgeFromID": "E", "MESH_FaceFromID": "F", "MESH_RegionFromID": "R",
        "MESH_Vertex": "V", "MESH_Edge": "E", "MESH_Face": "F", "MESH_Region": "R"}
LISTF = {"mvertex": "V", "medge": "E", "mface": "F", "mregion": "R"}
LISTOF = re.compile(r"^M[VEFR]_(Adj)?(Vertices|Edges|Faces|Regions)$")
PROP = re.compile(r"^M(?:[VEFR]|Ent)_(GEntDim|GEntID)$")
SETP = re.compile(r"^M(?:[VEFR]|Ent)_Set_(GEntDim|GEntID)$")
TYPES = {"INT": 0, "DOUBLE": 1, "VECTOR": 3, "TENSOR": 4}
ENTS = {"V": 0, "E": 1, "F": 2, "R": 3, "A": 5}
CONV = re.compile(r"%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|L|z|j|t)?([diuxXofFeEgGaAscp%])")
SETTER = {"MF_Set_Vertices": ("MF_Vertices", 1), "MF_Set_Edges": ("MF_Edges", 1), "MR_Set_Vertices": ("MR_Vertices", 1),
          "MR_Set_Faces": ("MR_Faces", 1)}
ADDER = {"MV_Add_AdjVertex": "MV_AdjVertices", "MR_Add_AdjRegion": "MR_AdjRegions"}
COUNT = {"MF_Vertices": {"MF_Num_Edges", "MF_Num_Vertices"}, "MF_Edges": {"MF_Num_Edges", "MF_Num_Vertices"}, "MR_Vertices": {"MR_Num_Vertices"},
         "MR_Faces": {"MR_Num_Faces"}, "MV_AdjVertices": {"MV_Num_AdjVertices"}, "MR_AdjRegions": {"MR_Num_Faces", "MR_Num_AdjRegions"}}
# the adjacent regions of a representation that keeps faces come from the faces
DERIVED = {("R4", "adjregions")}
CASTS = {"zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "freeze", "fpext", "fptrunc"}
LIMIT = 40000


class Undecided(Exception):
    pass


def conv_type(c, mod):
    if c in "diuxXo":
        return "d"
    if c in "fFeEgGaA":
        return "f"
    if c == "s":
        return "s"
    raise Undecided("conversion %%%s" % c)


def fmt_pieces(s):
    """format -> [(kind, ...)]: ('ws',) ('lit', text) ('cv', type, precision, mod, star)"""
    out, i = [], 0
    while i < len(s):
        if s[i].isspace():
            while i < len(s) and s[i].isspace():
                i += 1
            out.append(("ws",))
        elif s[i] == "%":
            m = CONV.match(s, i)
            if not m:
                raise Undecided("format " + s)
            i = m.end()
            if m.group(5) == "%":
                out.append(("lit", "%"))
            else:
                prec = m.group(3)
                out.append(("cv", conv_type(m.group(5), m.group(4)), prec, m.group(5), m.group(1) or "", m.group(2)))
        else:
            j = i
            while j < len(s) and not s[j].isspace() and s[j] != "%":
                j += 1
            out.append(("lit", s[i:j]))
            i = j
    return out


def has_iv(e):
    return isinstance(e, tuple) and (e[:1] == ("iv",) or any(has_iv(x) for x in e))


def noid(e):
    """expression without instruction numbers"""
    if not isinstance(e, tuple):
        return e
    if e and e[0] == "call":
        return ("call", e[1], noid(e[2]))
    if e and e[0] in ("it", "new"):
        return e[:2]
    if e and e[0] == "iv":
        return ("iv",)
    return tuple(noid(x) for x in e)


def show(e):
    if e is None:
        return "?"
    if not isinstance(e, tuple) or not e:
        return str(e)
    k = e[0]
    if k == "c":
        return str(e[1])
    if k == "it":
        return {"V": "vertex", "E": "edge", "F": "face", "R": "region"}[e[1]]
    if k == "call":
        return "%s(%s)" % (e[1], ",".join(show(x) for x in e[2]))
    if k == "id":
        return "number of " + show(e[2])
    if k == "neg":
        return "-(" + show(e[1]) + ")"
    if k == "prop":
        return "%s(%s)" % (e[1], show(e[2]))
    if k == "num":
        return "count of " + e[1]
    if k == "arg":
        return "arg%d" % e[1]
    if k == "iv":
        return "i"
    return "%s(%s)" % (k, ",".join(show(x) for x in e[1:]))


def kind_of(e):
    """entity kind of an expression"""
    if not isinstance(e, tuple) or not e:
        return None
    if e[0] in ("it", "new"):
        return e[1]
    if e[0] == "entry":
        l = e[1]
        if l[0] == "call":
            m = LISTOF.match(l[1])
            if m:
                return KNAME[m.group(2)]
        if l[0] == "fld":
            return LISTF.get(l[1])
    if e[0] == "call":
        if e[1] == "ME_Vertex":
            return "V"
        if e[1] in BYID:
            return BYID[e[1]]
    return None


class Engine:
    """one abstract run of a routine; subclass handles the file calls"""
    reading = False

    def __init__(self, P, f, setup):
        self.P, self.f, self.su = P, f, setup
        self.loops = f.loops()
        self.inloop = {}
        for h, bs in self.loops.items():
            for b in bs:
                self.inloop.setdefault(b, []).append(h)
        for b in self.inloop:
            self.inloop[b].sort(key=lambda h: len(self.loops[h]))
        self.ioblk = {x.b for x in f.instrs() if x.op == "call" and self.io(x)}
        self.ioloop = {h for h, bs in self.loops.items() if bs & self.ioblk}
        self.reach_io = {}
        for b in range(len(f.blocks)):
            self.reach_io[b] = bool(f.reachable_from(b) & self.ioblk) or b in self.ioblk
        self.steps = 0

    def io(self, x):
        return False

    # ---- values
    def addr(self, env, v):
        """(base, offset) of an address; base an alloca instr id, 'mesh.field', or an expression"""
        f = self.f
        x = f.get(v)
        off = 0
        while x is not None and (x.op in CASTS or x.op == "getelementptr"):
            if x.op == "getelementptr":
                for p in x.path:
                    if p[0] == "f":
                        base = self.ev(env, x.o[0])
                        return (("fld", base, p[2]), 0)
                    i = self.ev(env, p[1])
                    if i is None or i[0] != "c":
                        off = ("x", i, p[2]) if off == 0 else None
                    elif isinstance(off, int):
                        off += i[1] * p[2]
                v = x.o[0]
            else:
                v = x.o[0]
            x = f.get(v)
        if x is not None and x.op == "alloca":
            return (x.i, off)
        if v[0] == "g":
            return (("g", v[1]), off)
        return (self.ev(env, v), off)

    def ev(self, env, v):
        k = v[0]
        if k == "c":
            return v
        if k in ("null", "f", "s", "g", "fn", "var"):
            return v
        if k == "a":
            return self.su.get(("arg", v[1]), ("arg", v[1]))
        if k != "i":
            return None
        key = ("v", v[1])
        if key in env:
            return env[key]
        x = self.f.get(v)
        if x is None:
            return None
        if x.op in ("phi", "call", "load"):
            return None
        if x.op in CASTS:
            return self.ev(env, x.o[0])
        if x.op == "alloca":
            return ("al", x.i)
        if x.op == "getelementptr":
            return ("ad",) + self.addr(env, v)
        if x.op in ("add", "sub", "mul"):
            a, b = self.ev(env, x.o[0]), self.ev(env, x.o[1])
            return self.arith(x.op, a, b)
        if x.op == "select":
            c = self.truth(env, x.o[0])
            if c is None:
                a, b = self.ev(env, x.o[1]), self.ev(env, x.o[2])
                return a if a == b else None
            return self.ev(env, x.o[1] if c else x.o[2])
        if x.op in ("icmp", "xor", "and", "or"):
            c = self.truth(env, v)
            return None if c is None else ("c", int(c))
        if x.op in ("or", "and", "shl"):
            return None
        return None

    @staticmethod
    def arith(op, a, b):
        if a is None or b is None:
            return None
        if a[0] == "c" and b[0] == "c":
            return ("c", {"add": a[1] + b[1], "sub": a[1] - b[1], "mul": a[1] * b[1]}[op])
        if op == "sub" and a == ("c", 0):
            return b[1] if b[0] == "neg" else ("neg", b)
        if op == "mul" and ("c", -1) in (a, b):
            o = a if b == ("c", -1) else b
            return o[1] if o[0] == "neg" else ("neg", o)
        if op == "sub" and b[0] == "c":
            op, b = "add", ("c", -b[1])
        if op == "add":
            if a[0] == "c":
                a, b = b, a
            if b[0] == "c":
                if a[0] == "add" and a[2][0] == "c":
                    n = a[2][1] + b[1]
                    return a[1] if n == 0 else ("add", a[1], ("c", n))
                return a if b[1] == 0 else ("add", a, b)
        return (op, a, b)

    def sign(self, e):
        """'+', '-' or None for a symbolic number"""
        if e is None:
            return None
        if e[0] == "tok":
            return self.sign(e[2])
        if e[0] in ("id", "num"):
            return "+"
        if e[0] == "neg":
            return {"+": "-", "-": "+"}.get(self.sign(e[1]))
        if e[0] == "call" and e[1] == "fopen":
            return "+"
        return None

    def const(self, e):
        if e is None:
            return None
        if e[0] == "c":
            return e[1]
        if e[0] == "null":
            return 0
        if e[0] == "tok":
            return self.const(e[2])
        return None

    def truth(self, env, v):
        f = self.f
        if v[0] == "c":
            return bool(v[1])
        x = f.get(v)
        if x is None:
            return None
        if ("v", v[1]) in env and x.op != "icmp":
            n = self.const(env[("v", v[1])])
            return None if n is None else bool(n)
        if x.op in CASTS:
            return self.truth(env, x.o[0])
        if x.op == "xor" and ("c", 1) in x.o or x.op == "xor" and ("c", -1) in x.o:
            o = x.o[0] if x.o[1][0] == "c" else x.o[1]
            t = self.truth(env, o)
            return None if t is None else not t
        if x.op in ("and", "or"):
            a, b = self.truth(env, x.o[0]), self.truth(env, x.o[1])
            if x.op == "and":
                return False if a is False or b is False else (True if a and b else None)
            return True if a or b else (False if a is False and b is False else None)
        if x.op == "select":
            c = self.truth(env, x.o[0])
            return None if c is None else self.truth(env, x.o[1] if c else x.o[2])
        if x.op != "icmp":
            n = self.const(self.ev(env, v))
            return None if n is None else bool(n)
        a, b = self.ev(env, x.o[0]), self.ev(env, x.o[1])
        return self.compare(env, x.p, a, b)

    def compare(self, env, p, a, b):
        if a is None or b is None:
            return None
        na, nb = self.const(a), self.const(b)
        q = p.lstrip("us") if p not in ("eq", "ne") else p
        fn = {"eq": lambda u, w: u == w, "ne": lambda u, w: u != w, "gt": lambda u, w: u > w, "ge": lambda u, w: u >= w,
              "lt": lambda u, w: u < w, "le": lambda u, w: u <= w}[q]
        if na is not None and nb is not None:
            return fn(na, nb)
        if nb is not None or na is not None:
            e, n, sw = (a, nb, False) if nb is not None else (b, na, True)
            s = self.sign(e)
            if s == "+" and n <= 0:
                big = 10 ** 6
                return fn(n, big) if sw else fn(big, n)
            if s == "-" and n >= 0:
                big = -10 ** 6
                return fn(n, big) if sw else fn(big, n)
            if s == "+" and n == 1 and q in ("ge", "lt") and not sw:
                return q == "ge"
            d = env.get(("d", e))
            if d is not None:
                if d[0] == "is":
                    return fn(n, d[1]) if sw else fn(d[1], n)
                if n in d[1]:
                    if q in ("eq", "ne"):
                        return q == "ne"
        if a == b and not has_iv(a):
            return q in ("eq", "ge", "le")
        return None

    def learn(self, env, v, val):
        """branch on condition v taken with truth val"""
        x = self.f.get(v)
        while x is not None and x.op == "xor":
            o = x.o[0] if x.o[1][0] == "c" else x.o[1]
            val = not val
            v = o
            x = self.f.get(v)
        if x is None or x.op != "icmp" or x.p not in ("eq", "ne"):
            return
        a, b = self.ev(env, x.o[0]), self.ev(env, x.o[1])
        if a is None or b is None:
            return
        na, nb = self.const(a), self.const(b)
        if nb is None and na is not None:
            a, nb = b, na
        if nb is None or a[0] in ("c", "null"):
            return
        if (x.p == "eq") == val:
            env[("d", a)] = ("is", nb)
        else:
            old = env.get(("d", a), ("not", frozenset()))
            if old[0] == "not":
                env[("d", a)] = ("not", old[1] | {nb})

    # ---- memory
    def put(self, env, base, off, val):
        key = ("m", base, off)
        if val is None:
            env.pop(key, None)
        else:
            env[key] = val

    def clobber(self, env, base):
        for k in [k for k in env if k[0] == "m" and k[1] == base]:
            del env[k]

    def load(self, env, x):
        base, off = self.addr(env, x.o[0])
        if isinstance(base, tuple) and base[0] == "fld":
            if base[2] in LISTF:
                return ("fld", base[2])
            return env.get(("m", base, off))
        if base == ("arg", 0):
            return env.get(("m", ("fld", base, "reptype"), 0))       # first member of a mesh
        if isinstance(base, tuple) and base[0] == "g":
            return self.gload(env, base, off)
        v = env.get(("m", base, off))
        if v is None and isinstance(base, tuple):
            return ("ld", base, off)
        return v

    def gload(self, env, base, off):
        return None

    def call(self, env, x):
        """value of an ordinary call; effects on env"""
        n = x.callee
        args = [self.ev(env, a) for a in x.o]
        if n in NEXT:
            first = False
            if len(x.o) > 1:
                b, o = self.addr(env, x.o[1])
                first = env.get(("m", b, 0)) == ("c", 0)
                self.clobber(env, b)
            k = NEXT[n]
            if k in self.su["zero"]:
                return ("null",)
            if first:
                env[("d", ("it", k, x.i))] = ("not", frozenset({0}))
            return ("it", k, x.i)
        if n in NUM:
            return ("c", 0) if NUM[n] in self.su["zero"] else ("num", NUM[n])
        if n == "List_Entry":
            return ("entry", args[0], args[1])
        if n in BYID and not n.endswith("FromID") and len(args) > 1 and args[1] is not None and args[1][0] == "iv" and not self.reading:
            return ("it", BYID[n], x.i)
        if n in NEW:
            return ("new", NEW[n], x.i)
        m = PROP.match(n or "")
        if m:
            return ("prop", m.group(1), args[0])
        if n and n.startswith("llvm.abs") or n == "abs":
            e = args[0]
            if e is not None and e[0] == "c":
                return ("c", abs(e[1]))
            if e is not None and e[0] == "tok":
                inner = e[2]
                while inner[0] == "neg":
                    inner = inner[1]
                return ("tok", e[1], inner)
            return None if e is None else ("abs", e)
        return ("call", n, tuple(args), x.i)

    # ---- run
    def start(self):
        return {}

    def run(self):
        f = self.f
        env = self.start()
        stack = [(0, None, env, self.stream0(), ())]
        seen = set()
        while stack:
            b, prev, env, st, frames = stack.pop()
            self.steps += 1
            if self.steps > LIMIT:
                raise Undecided("too many paths in " + f.name)
            env = dict(env)
            # leaving loops
            while frames and b not in self.loops[frames[-1][0]]:
                st, frames = self.leave(st, frames, b)
                if st is None:
                    break
            if st is None:
                continue
            ivs = first = False
            if b in self.loops:
                ivs = True
                if frames and frames[-1][0] == b:
                    st, frames, again = self.again(env, st, frames, b)
                    if st is None:
                        continue
                    outs = [q for q in f.succ[prev] if q not in self.loops[b]]
                    if not again and outs and not [q for q in f.succ[b] if q not in self.loops[b]]:
                        # tested at its end: leave from there
                        for q in outs:
                            stack.append((q, prev, env, st, frames))
                        continue
                else:
                    first = True
                    frames = frames + ((b, self.open(st, b), False),)
            newv = {}
            for x in f.blocks[b]:
                if x.op != "phi":
                    break
                if ivs:
                    if first:
                        for v, p in x.o:
                            if p == prev:
                                env[("ini", ("v", x.i))] = self.ev(env, v)
                    newv[("v", x.i)] = self.carried(env, ("v", x.i), [v for v, p in x.o if p in self.loops[b]])
                else:
                    for v, p in x.o:
                        if p == prev:
                            newv[("v", x.i)] = self.ev(env, v)
            if ivs:
                bs = self.loops[b]
                own = {x.i for q in bs for x in f.blocks[q]}
                for k in list(env):
                    if k[0] == "v" and k[1] in own:
                        del env[k]
                    elif k[0] == "d" and self.mentions(k[1], own):
                        del env[k]
                    elif k[0] == "b" and k[1] in bs:
                        del env[k]
                ls = self.loopstores(b)
                if first:
                    for k in [k for k in env if k[0] == "m" and k[1] in ls]:
                        env[("ini", k)] = env[k]
                    for a in ls:
                        if ("m", a, 0) not in env:
                            env.pop(("ini", ("m", a, 0)), None)
                for a in ls:
                    self.clobber(env, a)
                for k in [k[1] for k in env if k[0] == "ini" and k[1][0] == "m" and k[1][1] in ls]:
                    env[k] = self.carried(env, k, [y.o[0] for y in ls[k[1]]])
            for k, val in newv.items():
                if val is None:
                    env.pop(k, None)
                else:
                    env[k] = val
            key = (b, prev if not newv else None, frozenset(env.items()), st, frames)
            if key in seen:
                continue
            seen.add(key)
            dead = False
            for x in f.blocks[b]:
                if x.op == "phi":
                    continue
                if x.op == "load":
                    v = self.load(env, x)
                    if v is None:
                        env.pop(("v", x.i), None)
                    else:
                        env[("v", x.i)] = v
                elif x.op == "store":
                    self.store(env, x, st, frames)
                elif x.op == "call":
                    r = self.scan(env, x, st, frames) if self.io(x) and self.reading else self.docall(env, x, st, frames)
                    if r is None:
                        dead = True
                        break
                    if len(r) == 3:
                        st, frames, v = r
                    else:
                        st, v = r
                    if v is None:
                        env.pop(("v", x.i), None)
                    else:
                        env[("v", x.i)] = v
                elif x.op == "ret":
                    self.end(env, x, st, frames)
                    dead = True
                    break
            if dead:
                continue
            t = f.blocks[b][-1]
            if t.op not in ("br", "switch"):
                continue
            succ = f.succ[b]
            options = []
            cur = frames[-1] if frames else None
            if cur is not None and cur[0] == b and not cur[2] and b in self.ioloop:
                env[("bd", b)] = self.bound(env, b)
            outs = None
            if cur is not None and cur[2]:
                outs = [s for s in succ if s not in self.loops[cur[0]]]
            if t.op == "switch":
                e = self.const(self.ev(env, t.o[0]))
                ev = self.ev(env, t.o[0])
                if e is None and ev is not None:
                    d = env.get(("d", ev))
                    if d and d[0] == "is":
                        e = d[1]
                if e is not None:
                    to = dict(t.cases).get(e, t.default)
                    options = [(to, None, None)]
                else:
                    options = [(s, None, None) for s in dict.fromkeys(succ)]
            elif len(set(succ)) == 1 or not t.o:
                options = [(succ[0], None, None)]
            else:
                c = self.truth(env, t.o[0])
                if outs:
                    options = [(s, t.o[0], s == succ[0]) for s in outs]
                elif c is not None:
                    options = [(succ[0] if c else succ[1], None, None)]
                else:
                    options = [(succ[0], t.o[0], True), (succ[1], t.o[0], False)]
                    if b in self.loops and cur is not None and not cur[2]:
                        opt = self.choose(env, st, frames, b, succ, t)
                        if opt is not None:
                            options = [o for o in options if o[0] in opt]
                    if len(options) > 1 and cur is not None and not cur[2] and cur[0] in succ and b in self.loops[cur[0]] and \
                       any(q not in self.loops[cur[0]] for q in succ):
                        options = [o for o in options if o[0] == cur[0]]      # tested at the end
            multi = len(options) > 1
            for s, cv, val in options:
                e2 = env
                if cv is not None and not (b in self.loops and any(q not in self.loops[b] for q in succ)):
                    e2 = dict(env)
                    self.learn(e2, cv, val)
                if multi and self.reading and not (b in self.loops and any(q not in self.loops[b] for q in succ)):
                    e2 = dict(e2) if e2 is env else e2
                    e2[("b", b)] = s
                stack.append((s, b, e2, st, frames))

    def mentions(self, e, own):
        if not isinstance(e, tuple):
            return False
        if e and e[0] in ("call", "it", "new", "iv") and isinstance(e[-1], int) and e[-1] in own:
            return True
        return any(self.mentions(x, own) for x in e)

    def carried(self, env, k, inner):
        """value a loop carries at its header: the entity iterated over, or an unknown step"""
        o = env.get(("ini", k))
        if o is not None and o[0] == "it" and inner and all(
                self.f.get(v) is not None and self.f.get(v).op == "call" and NEXT.get(self.f.get(v).callee) == o[1] for v in inner):
            return ("it", o[1], k)
        return ("iv", k[1] if k[0] == "v" else k)

    def loopstores(self, h):
        c = self.__dict__.setdefault("_ls", {})
        if h not in c:
            c[h] = {}
            for q in self.loops[h]:
                for x in self.f.blocks[q]:
                    if x.op == "store":
                        y = self.f.get(x.o[1])
                        while y is not None and (y.op in CASTS or y.op == "getelementptr"):
                            y = self.f.get(y.o[0])
                        if y is not None and y.op == "alloca":
                            c[h].setdefault(y.i, []).append(x)
        return c[h]

    def steps_from(self, env, val, start):
        """is val the running number start, start+1, ... of the innermost loop"""
        if val is None:
            return False
        d = 0
        if val[0] == "add" and val[2][0] == "c":
            val, d = val[1], val[2][1]
        if val[0] != "iv":
            return False
        k = ("v", val[1]) if isinstance(val[1], int) else val[1]
        ini = self.const(env.get(("ini", k)))
        if ini is None or ini + d != start:
            return False
        one = ("add", val, ("c", 1))
        if k[0] == "v":
            ph = self.f.get(("i", k[1]))
            backs = [v for v, p in ph.o if p in self.loops.get(ph.b, ())]
            return all(self.ev(env, v) == one for v in backs)
        hs = [h for h in self.loops if k[1] in self.loopstores(h)]
        if not hs:
            return False
        xs = self.loopstores(min(hs, key=lambda h: len(self.loops[h])))[k[1]]
        if len(xs) != 1:
            return False
        y = self.f.get(xs[0].o[0])
        return y is not None and y.op == "add" and ("c", 1) in y.o and env.get(k) == (one if d == 1 else val)

    def bound(self, env, b):
        """what a loop is bounded by, from its header's condition"""
        t = self.f.blocks[b][-1]
        if t.op != "br" or not t.o or len(set(self.f.succ[b])) < 2:
            return None
        x = self.f.get(t.o[0])
        if x is None or x.op != "icmp":
            return None
        a, c = self.ev(env, x.o[0]), self.ev(env, x.o[1])
        p = x.p if self.f.succ[b][0] in self.loops[b] else NOT.get(x.p, x.p)
        for u, w, q in ((a, c, p), (c, a, SWAP.get(p, p))):
            if u is not None and u[0] == "it":
                return u[:2]
            if u is None or w is None:
                continue
            if w == ("null",):
                if not has_iv(u):
                    return noid(u)
                continue
            iv, d = (u[1], u[2][1]) if u[0] == "add" and u[2][0] == "c" else (u, 0)
            if iv[0] == "iv":
                k = ("v", iv[1]) if isinstance(iv[1], int) else iv[1]
                ini = env.get(("ini", k))
                if ini is None:
                    continue
                q = q.lstrip("us") if q not in ("eq", "ne") else q
                if q in ("lt", "le"):
                    n = self.arith("sub", w, ("c", d)) if d else w
                    n = self.arith("add", n, ("c", 1)) if q == "le" else n
                    return self.arith("sub", n, ini) if ini != ("c", 0) else n
                if q == "ne" and ini == ("c", 0):
                    return w
                if q in ("gt", "ge") or q == "ne":
                    n = self.arith("add", ini, ("c", d)) if d else ini
                    n = self.arith("add", n, ("c", 1)) if q == "ge" else n
                    return self.arith("sub", n, w) if w != ("c", 0) else n
        return None


NOT = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
SWAP = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}


# ------------------------------------------------------------------ writer
class Writer(Engine):
    def __init__(self, P, f, setup, log):
        self.log = log
        super().__init__(P, f, setup)
        self.streams = set()
        self.nret = 0

    def io(self, x):
        return x.callee in ("fprintf", "fputs", "fputc", "putc", "_IO_putc", "fwrite")

    def stream0(self):
        return ((), True)          # items, last char is white space

    # frames: (header, (outer items, ws at entry), closing)
    def open(self, st, b):
        return st

    def again(self, env, st, frames, b):
        h, outer, closing = frames[-1]
        if closing:
            return None, frames, False
        if b not in self.ioloop:
            return st, frames[:-1] + ((h, outer, True),), False
        items, ws = st
        body = items[len(outer[0]):]
        if not body:
            if h in self.ioloop:
                self.skips(env, frames, h)
                return None, frames, False
        st = (outer[0] + (("L", env.get(("bd", h)), body),), ws)
        if not ws and not self.lead(body):
            self.log.bad("apart", "%s|%s" % (self.f.name, self.where(st, body)), self.line(h), "records run together: no white space after the last field")
        return st, frames[:-1] + ((h, outer, True),), False

    def lead(self, body):
        it = body[0]
        while it[0] == "L":
            it = it[2][0]
        return it[0] == "W" and False

    def where(self, st, body):
        w = [i[1] for i in st[0] if i[0] == "W"]
        return " ".join(w[-2:])

    def line(self, b):
        return self.f.blocks[b][-1].loc

    def section(self, st, frames):
        items = frames[0][1][0] if frames else st[0]
        last = [i[1] for i in items if i[0] == "W" and not re.match(r"^\W*$", i[1])]
        return last[-1] if last else "start"

    def skips(self, env, frames, h):
        """a turn of a printing loop that prints nothing"""
        sec = self.section(frames[-1][1], frames)
        outer_attr = any(i == ("W", "attributes") for fr in frames for i in fr[1][0])
        if outer_attr:
            if len(frames) > 1:
                ok = any(k[0] == "d" and noid(k[1])[:2] == ("call", "MEnt_Get_AttVal") and v == ("is", 0) for k, v in env.items())
                if not ok:
                    self.log.bad("every", "%s|attributes" % self.f.name, self.line(h),
                                 "an entity can be left out of an attribute's values although it carries one")
                else:
                    self.log.ob("every", "attribute values")
            return
        self.log.bad("every", "%s|%s" % (self.f.name, sec), self.line(h), "an entity can be left out of section '%s'" % sec)

    def leave(self, st, frames, b):
        h, outer, closing = frames[-1]
        if closing or st == outer or h not in self.ioloop:
            return st, frames[:-1]
        items, ws = st
        body = items[len(outer[0]):]
        if body and h in self.ioloop:
            st = (outer[0] + (("L", None, body),), ws)
        return st, frames[:-1]

    def choose(self, env, st, frames, b, succ, t):
        if b in self.ioloop:
            if env.get(("bd", b)) == ("c", 0):
                return [s for s in succ if s not in self.loops[b]] or None
        ins = [s for s in succ if s in self.loops[b]]
        return ins or None

    def gload(self, env, base, off):
        return None

    def store(self, env, x, st, frames):
        b, o = self.addr(env, x.o[1])
        v = self.ev(env, x.o[0])
        if isinstance(b, int) or isinstance(b, tuple) and b and b[0] == "fld":
            self.put(env, b, o, v)

    def docall(self, env, x, st, frames):
        n = x.callee
        args = None
        if n == "fprintf":
            return self.printf(env, x, st, frames, x.o[1], x.o[2:]), None
        if n == "fputs" and x.o[0][0] == "s":
            return self.printf(env, x, st, frames, ("s", x.o[0][1].replace("%", "%%")), ()), None
        if n in ("fputc", "putc", "_IO_putc") and x.o[0][0] == "c":
            return self.printf(env, x, st, frames, ("s", chr(x.o[0][1]).replace("%", "%%")), ()), None
        if n == "fwrite" and x.o[0][0] == "s" and x.o[1] == ("c", 1) or n == "fwrite" and x.o[0][0] == "s" and x.o[2] == ("c", 1):
            return self.printf(env, x, st, frames, ("s", x.o[0][1].replace("%", "%%")), ()), None
        if self.io(x):
            raise Undecided("output by %s" % n)
        if n and n.startswith("llvm.") and not n.startswith("llvm.abs"):
            return st, None
        if n == "MSTK_Report":
            sev = self.const(self.ev(env, x.o[2]))
            if sev is not None and sev >= 3:
                return None
            return st, None
        if n == "MESH_RepType":
            return st, ("c", self.su["mesh"])
        if n == "MESH_Num_Attribs":
            return st, ("c", self.su["natt"] + env.get(("natt",), 0))
        if n == "MAttrib_Get_Type" and self.ev(env, x.o[0])[0] == "call" and self.ev(env, x.o[0])[1] == "MESH_Attrib":
            return st, ("c", self.su["type"])
        if n == "MAttrib_Get_EntDim":
            return st, ("c", self.su["ent"])
        if n == "MAttrib_Get_Name":
            b, o = self.addr(env, x.o[1])
            self.put(env, b, o, ("attname", self.ev(env, x.o[0])))
            return st, None
        if n == "MAttrib_New":
            env[("natt",)] = env.get(("natt",), 0) + 1
        if n == "MV_Coords":
            b, o = self.addr(env, x.o[1])
            if isinstance(o, int):
                e = self.ev(env, x.o[0])
                for k in range(3):
                    self.put(env, b, o + 8 * k, ("coord", k, e))
            return st, None
        if n == "MEnt_Set_AttVal":
            e, att, val = (self.ev(env, a) for a in x.o[:3])
            self.numbering(env, x, e, att, val)
            return st, None
        v = self.call(env, x)
        if n == "MEnt_Get_AttVal":
            e, att = self.ev(env, x.o[0]), self.ev(env, x.o[1])
            for a, w in zip(x.o[2:5], "irp"):
                b, o = self.addr(env, a)
                if isinstance(b, int):
                    if w == "i" and att is not None and att[:2] == ("call", "MAttrib_New"):
                        self.put(env, b, o, ("id", self.const(att[2][3]), e, noid(att)))
                    else:
                        self.put(env, b, o, ("att", w, e, att))
            return st, v
        if n not in NEXT:
            for a in x.o:
                if a[0] == "i":
                    b, o = self.addr(env, a)
                    if isinstance(b, int):
                        self.clobber(env, b)
        if n in ("exit", "abort"):
            return None
        return st, v

    def numbering(self, env, x, e, att, val):
        if att is None or att[:2] != ("call", "MAttrib_New") or kind_of(e) is None:
            return
        k = kind_of(e)
        why = "is not a count from one"
        ok = self.steps_from(env, val, 1)
        if ok and e[0] != "it":
            ok, why = False, "is given to entities other than those of the loop"
        if ok and self.const(att[2][3]) != KINDS.index(k):
            ok, why = False, "is kept in an attribute of another kind of entity"
        self.log.ob("number", "numbers given")
        if ok:
            self.log.numbered.add((noid(att), k))
        else:
            self.log.bad("number", "%s|numbering of %s" % (self.f.name, k), x.loc, "the number given to each %s %s" % (show(("it", k)), why))

    def printf(self, env, x, st, frames, fm, args):
        items, ws = st
        if fm[0] != "s":
            raise Undecided("format of fprintf not constant")
        args = list(args)
        for p in fmt_pieces(fm[1]):
            if p[0] == "ws":
                ws = True
                continue
            self.log.ob("apart", "fields")
            if not ws:
                self.log.bad("apart", "%s|%s" % (self.f.name, fm[1].strip()), x.loc, "a field follows the one before it without white space: \"%s\"" % fm[1])
            if p[0] == "lit":
                try:
                    items = items + (("T", "d", ("c", int(p[1])), None),)
                except ValueError:
                    items = items + (("W", p[1]),)
            else:
                if not args:
                    raise Undecided("fprintf with too few arguments")
                a = args.pop(0)
                e = self.ev(env, a)
                if p[1] == "s":
                    b, o = self.addr(env, a)
                    if b == ("g", "MESH_rtype_str"):
                        e = ("rtname", o)
                    elif isinstance(b, int):
                        e = env.get(("m", b, o))
                    elif e is not None and e[0] == "s":
                        items = items + (("W", e[1]),)
                        ws = False
                        continue
                if p[1] == "f" and (e is None or e[0] != "f"):
                    self.log.ob("digits", "real fields")
                    big = p[3] in "aA" and p[2] is None
                    if not big and int(p[2] if p[2] not in (None, "*") else 6) < 16:
                        self.log.bad("digits", "%s|%s" % (self.f.name, show(noid(e)) if e else fm[1].strip()), x.loc,
                                     "a real value is written with %s digits after the point: what is read back differs from it" % (p[2] or 6))
                self.orient(env, x, e)
                items = items + (("T", p[1], e, x.loc),)
            ws = False
        return (items, ws)

    def orient(self, env, x, e):
        """sign of an edge or face number against its direction"""
        neg, i = False, e
        while i is not None and i[0] == "neg":
            neg, i = not neg, i[1]
        if i is None or i[0] != "id" or not i[2] or i[2][0] != "entry":
            return
        lst, idx = i[2][1], i[2][2]
        if lst[0] != "call" or lst[1] not in ("MF_Edges", "MR_Faces"):
            return
        self.log.ob("orient", lst[1])
        fn = {"MF_Edges": ("MF_EdgeDir_i", "MF_EdgeDir"), "MR_Faces": ("MR_FaceDir_i", "MR_FaceDir")}[lst[1]]
        d = None
        for k, v in env.items():
            if k[0] != "d" or k[1][0] != "call" or k[1][1] not in fn:
                continue
            a = k[1][2]
            if a[0] != lst[2][0] or a[1] != (idx if k[1][1].endswith("_i") else i[2]):
                continue
            if v[0] == "is":
                d = {1: 1, 0: 0}.get(v[1])
            elif 1 in v[1]:
                d = 0
            elif 0 in v[1]:
                d = 1
        key = "%s|%s" % (self.f.name, lst[1])
        if d is None:
            self.log.bad("orient", key, x.loc, "the number is written without regard to the direction in which it is used")
        elif (d == 1) == neg:
            self.log.bad("orient", key, x.loc, "the sign of the number is the wrong way round")

    def end(self, env, x, st, frames):
        v = self.const(self.ev(env, x.o[0])) if x.o else None
        if v == 0:
            return
        while frames:
            st, frames = self.leave(st, frames, None)
        self.nret += 1
        self.streams.add(st[0])


# ------------------------------------------------------------------ reader
def index_stream(items, n=None):
    n = n if n is not None else [0]
    out = []
    for it in items:
        if it[0] == "L":
            out.append(("L", it[1], index_stream(it[2], n)))
        elif it[0] == "T":
            n[0] += 1
            out.append(it + (n[0],))
        else:
            out.append(it)
    return tuple(out)


def flat(items, sec="header"):
    for it in items:
        if it[0] == "L":
            yield from flat(it[2], sec)
        elif it[0] == "W":
            if re.match(r"^[a-z]+$", it[1]):
                sec = it[1]
        else:
            yield it, sec


class Reader(Engine):
    def __init__(self, P, f, setup, log, stream):
        self.log, self.stream = log, index_stream(stream)
        self.name = {}
        for it, sec in flat(self.stream):
            self.name[it[4]] = (it, sec)
        self.used = set()
        self.ok = False
        self.rejects = []
        super().__init__(P, f, setup)

    def io(self, x):
        return x.callee in ("__isoc99_fscanf", "fscanf", "fgets", "fgetc", "getc", "fread", "__isoc23_fscanf")

    def start(self):
        return {("m", ("fld", ("arg", 0), "reptype"), 0): ("c", UNKNOWN)}

    def stream0(self):
        return self.stream

    def sec(self, st):
        """section being read"""
        for i, s in self.name.values():
            pass
        return ""

    # frames: (header, (rest after record, record), closing)
    def open(self, st, b):
        return None

    reading = True

    def choose(self, env, st, frames, b, succ, t):
        bd = self.bound(env, b)
        if bd is not None and self.const(bd) == 0:
            return [s for s in succ if s not in self.loops[b]] or None
        ins = [s for s in succ if s in self.loops[b]]
        return ins or None

    def headio(self, b):
        return b in self.ioloop

    def enter_record(self, env, st, frames, b):
        if not st or st[0][0] != "L":
            return None
        return st[0][2], (st[1:], st[0])

    def again(self, env, st, frames, b):
        h, rec, closing = frames[-1]
        if closing:
            return None, frames, False
        if b not in self.ioloop:
            return st, frames[:-1] + ((h, rec, True),), False
        if rec is None:
            # nothing was read in this turn
            return st, frames[:-1] + ((h, None, True),), False
        rest, L = rec
        if st:
            self.mis("record", h, "a record is left unread from %s on" % self.item(st[0]), st[0])
            return None, frames, False
        if rest and rest[0][0] == "L" and env.get(("open", h)) == "counter":
            return rest[0][2], frames[:-1] + ((h, (rest[1:], rest[0]), False),), True
        return rest, frames[:-1] + ((h, rec, True),), False

    def item(self, it):
        if it[0] == "W":
            return "'%s'" % it[1]
        if it[0] == "L":
            return "repeated records"
        return show(noid(it[2])) if it[2] else "a field"

    def leave(self, st, frames, b):
        h, rec, closing = frames[-1]
        if closing or rec is None:
            return st, frames[:-1]
        if st:
            # left in the middle of a record: fatal unless the reader gives up
            return (("B", h, st[0]) if st[0][0] != "B" else st[0],) + rec[0], frames[:-1]
        return rec[0], frames[:-1]

    def mis(self, rule, b, msg, it=None, x=None):
        where = x.loc if x is not None else self.f.blocks[b][0].loc
        sec = ""
        if it is not None and it[0] == "T":
            sec = self.name[it[4]][1]
        self.log.bad(rule, "%s|%s|%s" % (self.f.name, sec, msg), where, msg + (" (section %s)" % sec if sec else "") + self.log.tag)
        self.failed = True

    failed = False

    def take(self, env, x, st, frames):
        """next field of the stream for one conversion"""
        if st and st[0][0] == "L":
            return None
        return st[0] if st else None

    def gload(self, env, base, off):
        if base[1] == "MESH_rtype":
            return ("c", self.su["rep"])
        return None

    def store(self, env, x, st, frames):
        b, o = self.addr(env, x.o[1])
        v = self.ev(env, x.o[0])
        if isinstance(b, int) or isinstance(b, tuple) and b and b[0] == "fld":
            self.put(env, b, o, v)
        elif v is not None and v[0] == "c" and x.o[0][0] != "null":
            fr = [fr for fr in frames if fr[1] is not None]
            if fr and self.roots(x.o[1]) & self.dirarrays():
                self.stored(env, x, v, fr[-1])

    def roots(self, v):
        """allocations and joins an address is based on"""
        out, todo = set(), [v]
        while todo:
            v = todo.pop()
            x = self.f.get(v)
            if x is None or x.i in out:
                continue
            if x.op in CASTS or x.op == "getelementptr":
                todo.append(x.o[0])
            elif x.op == "phi":
                out.add(x.i)
                todo += [q for q, _ in x.o]
            elif x.op == "select":
                todo += x.o[1:]
            elif x.op == "call":
                out.add(x.i)
                if x.callee == "realloc":
                    todo.append(x.o[0])
            elif x.op == "alloca":
                out.add(x.i)
        return out

    def dirarrays(self):
        if not hasattr(self, "_da"):
            self._da = set()
            for x in self.f.instrs():
                if x.op == "call" and x.callee in ("MF_Set_Edges", "MR_Set_Faces"):
                    self._da |= self.roots(x.o[3])
        return self._da

    def stored(self, env, x, v, fr):
        """a value put into an array while reading a record: direction of an edge or face"""
        if v[0] == "c":
            neg = None
            for it in fr[1][1][2]:
                if it[0] == "T" and it[2] is not None:
                    e = it[2]
                    if e[0] == "neg":
                        neg = True
                    elif e[0] == "id" and neg is None:
                        neg = False
            toks = [it for it in fr[1][1][2] if it[0] == "T"]
            if len(toks) == 1 and neg is not None and self.signed(toks[0]):
                self.log.ob("orient", "read back")
                if v[1] != (0 if neg else 1):
                    self.mis("orient", x.b, "direction %d is stored for a number with %s sign" % (v[1], "minus" if neg else "plus"), toks[0], x)
                else:
                    env[("dirs",)] = toks[0][4]

    @staticmethod
    def signed(it):
        e = it[2]
        while e[0] == "neg":
            e = e[1]
        return e[0] == "id" and e[2][0] == "entry" and e[2][1][0] == "call" and e[2][1][1] in ("MF_Edges", "MR_Faces")

    def lazy(self, env, x, st, frames):
        """open the record of the innermost reading loop that has none yet"""
        need = [i for i, fr in enumerate(frames) if fr[0] in self.ioloop and fr[1] is None and not fr[2]]
        for i in need:
            if not st or st[0][0] != "L":
                return None
            L = st[0]
            bd = env.get(("bd", frames[i][0]))
            if not self.bounds(env, x, L, bd, frames[i][0]):
                return None
            frames = frames[:i] + ((frames[i][0], (st[1:], L), False),) + frames[i + 1:]
            st = L[2]
        return st, frames

    def bounds(self, env, x, L, bd, h):
        """the records read as often as they were written"""
        if bd is None:
            return True
        e = bd[2] if bd[0] == "tok" else bd
        if has_iv(e) and bd[0] != "tok":
            return True
        self.log.ob("record", "repetitions")
        if bd[0] == "tok":
            self.mark(bd[1])
            if self.name[bd[1]][1] == "attributes" and (e[0] == "?" or has_iv(e)) and e[0] != "call":
                env[("open", h)] = "counter"
                return True
        w = L[1]
        if w is None:
            return True
        same = noid(e) == noid(w) or e[0] == "num" and w[0] in ("it", "num") and e[1] == w[1]
        if not same:
            self.mis("record", x.b, "records written once per %s are read once per %s" % (show(noid(w)), show(noid(e))),
                     self.name[bd[1]][0] if bd[0] == "tok" else None, x)
        return same

    def docall(self, env, x, st, frames):
        n = x.callee
        if n and n.startswith("llvm.") and not n.startswith("llvm.abs"):
            return st, None
        if n == "MSTK_Report":
            sev = self.const(self.ev(env, x.o[2]))
            if sev is not None and sev >= 2:
                self.reject(env, x, st, x.o[1][1] if x.o[1][0] == "s" else "error")
                return None
            return st, None
        if n in ("exit", "abort"):
            self.reject(env, x, st, n)
            return None
        if n in ("strncmp", "strcmp"):
            return st, self.strcmp(env, x)
        if n == "MESH_SetRepType":
            self.put(env, ("fld", ("arg", 0), "reptype"), 0, self.ev(env, x.o[1]))
            return st, None
        args = [self.ev(env, a) for a in x.o]
        self.consume(env, x, n, args, frames)
        v = self.call(env, x)
        if n == "sprintf":
            b, o = self.addr(env, x.o[0])
            self.clobber(env, b)
        return st, v

    def strcmp(self, env, x):
        b, o = self.addr(env, x.o[0])
        c, o2 = self.addr(env, x.o[1])
        lit = x.o[1]
        if isinstance(c, int):
            b, o, lit = c, o2, x.o[0]
            c, o2 = self.addr(env, x.o[0])
        cell = env.get(("m", b, o))
        if cell is None:
            return None
        if cell[0] == "tok" and cell[2][0] == "rtname":
            if c == ("g", "MESH_rtype_str"):
                return ("c", 0)
            if lit[0] == "s":
                cell = ("W", REPS[self.su["rep"]])
        if cell[0] == "W" and lit[0] == "s":
            s, t = cell[1], lit[1]
            if x.callee == "strncmp":
                n = self.const(self.ev(env, x.o[2]))
                if n is None:
                    return None
                s, t = s[:n], t[:n]
            return ("c", (s > t) - (s < t))
        return None

    def reject(self, env, x, st, msg):
        # decided only by conditions the interpretation knows?
        for k, s in env.items():
            if k[0] == "b":
                for q in self.f.succ[k[1]]:
                    if q != s and self.reach_io[q] and x.b != q and x.b not in self.f.reachable_from(q, (k[1],)):
                        return
        self.rejects.append((x, msg, st))

    def tokrole(self, it):
        return it[2]

    def mark(self, tid):
        self.used.add(tid)

    def want(self, env, x, arg, test, what):
        """arg must be a field of the file satisfying test"""
        if arg is None or arg[0] != "tok":
            return False
        it, sec = self.name[arg[1]]
        self.log.ob("meaning", sec)
        if test(arg[2]):
            self.mark(arg[1])
            return True
        self.mis("meaning", x.b, "%s is used as %s" % (show(noid(arg[2])), what), it, x)
        self.mark(arg[1])
        return True

    def toks(self, e):
        if not isinstance(e, tuple):
            return
        if e and e[0] == "tok":
            yield e
            return
        for q in e:
            yield from self.toks(q)

    def consume(self, env, x, n, args, frames):
        m = SETP.match(n or "")
        if m:
            k = kind_of(args[0])
            self.want(env, x, args[1], lambda e: e[:2] == ("prop", m.group(1)) and e[2][0] == "it" and e[2][1] == k,
                      "%s of a new %s" % (m.group(1), show(("it", k)) if k else "?"))
            return
        if n == "MV_Set_Coords":
            b, o = self.addr(env, x.o[1])
            for k in range(3):
                c = env.get(("m", b, (o or 0) + 8 * k))
                if not self.want(env, x, c, lambda e: e[:2] == ("coord", k) and e[2][:2] == ("it", "V"), "coordinate %d" % k):
                    self.mis("meaning", x.b, "coordinate %d does not come from the file" % k, None, x)
            return
        if n == "List_Entry" or n in BYID:
            k = LISTF.get(args[0][1]) if n == "List_Entry" and args[0] is not None and args[0][0] == "fld" else BYID.get(n)
            e = args[1]
            ts = list(self.toks(e))
            if k is None or not ts:
                return
            t = ts[0]
            it, sec = self.name[t[1]]
            self.log.ob("number", sec)
            base = 0 if n.endswith("FromID") else -1
            shape = e == t if base == 0 else e == ("add", t, ("c", -1))
            if not shape:
                self.mis("number", x.b, "the number read is not turned into a position in its list", it, x)
            elif t[2][0] != "id" or KINDS.find(k) != t[2][1]:
                self.mis("number", x.b, "%s is looked up among the %s" % (show(noid(t[2])), {"V": "vertices", "E": "edges", "F": "faces", "R": "regions"}[k]), it, x)
            else:
                self.mark(t[1])
            return
        if n == "ME_Set_Vertex":
            e = args[2]
            for t in self.toks(e):
                it, sec = self.name[t[1]]
                self.log.ob("meaning", sec)
                w = t[2][2] if t[2][0] == "id" else None
                if not (w and w[:2] == ("call", "ME_Vertex") and w[2][1] == args[1]):
                    self.mis("meaning", x.b, "end %s of a new edge is not the vertex written as that end" % show(args[1]), it, x)
                env_key = ("ends", args[1])
                self.used.add(("end", args[1], t[1]))
            return
        if n in SETTER or n in ADDER:
            want = SETTER[n][0] if n in SETTER else ADDER[n]
            # fields of the repeated inner record just read
            inner = self.lastrec(env, frames)
            if inner is None:
                return
            self.log.ob("meaning", n)
            e = inner[2]
            while e is not None and e[0] == "neg":
                e = e[1]
            fn = e[2][1][1] if e is not None and e[0] == "id" and e[2][0] == "entry" and e[2][1][0] == "call" else None
            if fn != want:
                self.mis("meaning", x.b, "%s is given what %s returned" % (n, fn), inner, x)
            if n in ("MF_Set_Edges", "MR_Set_Faces") and self.signed(inner):
                self.log.ob("orient", n)
                if env.get(("dirs",)) != inner[4]:
                    self.mis("orient", x.b, "the directions %s is given are not the signs of the numbers read" % n, inner, x)
            if n in SETTER:
                self.want(env, x, args[1], lambda q: q[0] == "call" and q[1] in COUNT[want], "the number of entries for %s" % n)
            return
        if n == "MAttrib_New":
            bname, o = self.addr(env, x.o[1])
            c = env.get(("m", bname, o))
            self.want(env, x, c, lambda q: q[0] == "attname", "attribute name")
            if self.su.get("type") is not None:
                self.log.ob("meaning", "attribute type and kind", 2)
                if self.const(args[2]) != self.su["type"]:
                    self.mis("meaning", x.b, "an attribute written with type %d is made with type %s" % (self.su["type"], show(args[2])), None, x)
                if self.const(args[3]) != self.su["ent"]:
                    self.mis("meaning", x.b, "an attribute written for entity kind %d is made for kind %s" % (self.su["ent"], show(args[3])), None, x)
                if self.su["type"] in (3, 4):
                    if len(args) < 5 or not self.want(env, x, args[4], lambda q: q[:2] == ("call", "MAttrib_Get_NumComps"), "number of components"):
                        self.mis("meaning", x.b, "the number of components does not come from the file", None, x)
            return
        if n == "MEnt_Set_AttVal":
            ty = self.su.get("type")
            if ty == 0:
                self.want(env, x, args[2], lambda q: self.ofatt(q, "i"), "integer value") or self.mis("meaning", x.b, "the integer value set does not come from the file", None, x)
            elif ty == 1:
                self.want(env, x, args[3], lambda q: self.ofatt(q, "r"), "real value") or self.mis("meaning", x.b, "the real value set does not come from the file", None, x)
            elif ty in (3, 4):
                p = args[4]
                hits = [v for k, v in env.items() if k[0] == "m" and k[1] == p and p is not None]
                for t in hits:
                    self.want(env, x, t, lambda q: q[0] == "ld" and self.ofatt(q[1], "p"), "component")
                if not hits:
                    self.mis("meaning", x.b, "the components set do not come from the file", None, x)
            ent = args[0]
            self.log.ob("meaning", "attribute entity")
            if not (ent and ent[0] == "call" and ent[1] in BYID and list(self.toks(ent))):
                self.mis("meaning", x.b, "the entity given a value does not come from the file", None, x)
            return

    @staticmethod
    def ofatt(q, w):
        return isinstance(q, tuple) and q[:2] == ("att", w) and q[2][0] == "it" and q[3] is not None and q[3][:2] == ("call", "MESH_Attrib")

    def lastrec(self, env, frames):
        t = env.get(("inner",))
        return self.name[t][0] if t is not None else None

    # --- reading
    def scan(self, env, x, st, frames):
        fm = x.o[1]
        if fm[0] != "s":
            raise Undecided("format of fscanf not constant")
        if st and st[0][0] == "B":
            self.mis("record", st[0][1], "a record is left unread from %s on" % self.item(st[0][2]), st[0][2])
            return None
        r = self.lazy(env, x, st, frames)
        if r is None:
            if not st and all(fr[1] is None for fr in frames):
                return st, frames, ("c", -1)
            self.mis("record", x.b, "repeated records are expected, the file has %s" % (self.item(st[0]) if st else "no more"), st[0] if st else None, x)
            return None
        st, frames = r
        dests = list(x.o[2:])
        got = 0
        for p in fmt_pieces(fm[1]):
            if p[0] == "ws":
                continue
            if p[0] == "lit":
                if st and st[0] == ("W", p[1]):
                    st = st[1:]
                    continue
                self.mis("record", x.b, "'%s' is expected" % p[1], st[0] if st else None, x)
                return None
            _, ty, prec, conv, flags, width = p
            star = width == "*"
            if not st:
                if got == 0 and all(fr[1] is None or fr[2] for fr in frames):
                    return st, frames, ("c", -1)
                self.mis("record", x.b, "more fields are read than were written (%s)" % fm[1].strip(), None, x)
                return None
            it = st[0]
            self.log.ob("record", "fields read")
            if it[0] == "L":
                self.mis("record", x.b, "one field is read where records repeat", None, x)
                return None
            if it[0] == "W" and ty != "s" or it[0] == "T" and ty not in ("s", it[1]) or it[0] == "T" and it[1] == "s" and ty != "s" or \
               it[0] == "T" and ty == "s" and it[1] != "s":
                self.mis("record", x.b, "%%%s reads %s" % (conv, self.item(it) if it[0] == "W" else "a field written as %%%s" % it[1]), it, x)
                return None
            st = st[1:]
            got += 1
            if star:
                continue
            d = dests.pop(0)
            b, o = self.addr(env, d)
            if it[0] == "W":
                v = it
            else:
                v = ("tok", it[4], it[2] if it[2] is not None else ("?",))
                if self.const(it[2]) is not None:
                    self.used.add(it[4])
                if frames and len([1 for fr in frames if fr[1] is not None]) >= 2 or (it[2] and it[2][0] in ("id", "neg")):
                    env[("inner",)] = it[4]
            if isinstance(b, int) or isinstance(b, tuple):
                self.put(env, b, o if isinstance(o, int) else "x", v)
        return st, frames, ("c", got)

    def load(self, env, x):
        v = super().load(env, x)
        return v

    def end(self, env, x, st, frames):
        while frames:
            st, frames = self.leave(st, frames, None)
            if st is None:
                return
        v = self.ev(env, x.o[0]) if x.o else None
        n = self.const(v)
        if n == 0:
            self.reject(env, x, st, "returns 0")
            return
        if st and st[0][0] == "B":
            self.mis("record", st[0][1], "a record is left unread from %s on" % self.item(st[0][2]), st[0][2])
            return
        if st:
            self.rejects.append((x, "returns success with %s unread" % self.item(st[0]), st))
            return
        self.ok = True


# ------------------------------------------------------------------ driver
class Log:
    def __init__(self):
        self.obs, self.bads, self.numbered, self.tag, self.seen = {}, [], set(), "", set()

    def ob(self, rule, what, n=1):
        self.obs[(rule, what)] = self.obs.get((rule, what), 0) + n

    def bad(self, rule, key, where, msg):
        if (rule, key) not in self.seen:
            self.seen.add((rule, key))
            self.bads.append((rule, key, where, msg))


SHAPES = {"points": "EFR", "wires": "FR", "surface": "R", "solid": ""}


def cases():
    # a full mesh written in each of the other representations
    for r, rep in enumerate(REPS):
        for sh, zero in SHAPES.items():
            yield (r, rep, sh + " of a full mesh", frozenset(zero), None, None)
    for r, rep in enumerate(REPS):
        for sh, zero in SHAPES.items():
            full = rep in ("F1", "F4")
            if sh == "wires" and not full:
                continue
            z = set(zero) | (set() if full else {"E"})
            if rep in ("R1", "R2") and sh == "solid":
                z |= {"F"}
            yield (r, rep, sh, frozenset(z), None, None)
        kinds = "VEFRA" if rep in ("F1", "F4") else ("VFRA" if rep == "R4" else "VRA")
        for t in TYPES:
            for k in kinds:
                z = set() if rep in ("F1", "F4") else ({"E"} if rep == "R4" else {"E", "F"})
                yield (r, rep, "solid", frozenset(z), t, k)


def text(items):
    o = []
    for it in items:
        if it[0] == "L":
            o.append("{" + text(it[2]) + "}")
        elif it[0] == "W":
            o.append(it[1])
        else:
            o.append("<" + (show(noid(it[2])) if it[2] else "?") + ">")
    return " ".join(o)


NEEDED = ("num", "prop", "coord", "id", "neg", "num", "att", "attname", "ld")


def one(P, w, rd, case):
    r, rep, sh, zero, ty, kd = case
    log = Log()
    log.tag = " [%s, %s%s]" % (rep, sh, ", %s attribute on %s" % (ty, kd) if ty else "")
    su = {"rep": r, "zero": zero, "natt": 1 if ty else 0, "type": TYPES.get(ty), "ent": ENTS.get(kd)}
    su[("arg", rep_arg(w))] = ("c", r if "full mesh" in sh else UNKNOWN)
    su["mesh"] = 0 if "full mesh" in sh else r
    W = Writer(P, w, su, log)
    und = []
    try:
        W.run()
    except Undecided as e:
        return log, [str(e)], []
    if not W.streams:
        return log, ["the writer has no successful return"], []
    streams = sorted(W.streams, key=repr)
    if ty:
        # keep the streams with values
        streams = [s for s in streams if ("W", "attributes") in s and s[-1][0] == "L"]
        if not streams:
            log.bad("every", "%s|attributes" % w.name, w.blocks[0][0].loc, "the values of an attribute are never written" + log.tag)
    names = set()
    for s in streams:
        Rd = Reader(P, rd, dict(su), log, s)
        try:
            Rd.run()
        except Undecided as e:
            und.append(str(e))
            continue
        log.ob("accepted", "%s %s" % (rep, "attributes" if ty else sh))
        rej = {(x.loc, m): (x, m, q) for x, m, q in Rd.rejects}
        for (loc, m), (x, m, q) in rej.items():
            log.bad("accepted", "%s|%s" % (rd.name, m), loc, "the reader stops with \"%s\" on a file the writer produced%s: %s" % (m, log.tag, text(s)[:300]))
        if not Rd.ok and not rej and not Rd.failed:
            log.bad("accepted", "%s|no end" % rd.name, rd.blocks[0][0].loc, "the reader does not get through a file the writer produced" + log.tag)
        for tid, (it, sec) in Rd.name.items():
            e = it[2]
            names.add(sec)
            i = e
            while i is not None and i[0] == "neg":
                i = i[1]
            if i is not None and i[0] == "id":
                log.ob("number", "written")
                k = kind_of(i[2])
                key = "%s|%s" % (w.name, sec)
                if k is None or KINDS.index(k) != i[1]:
                    log.bad("number", key, it[3], "a %s is written by a number kept for another kind of entity" % show(("it", k)) if k else "an entity of unknown kind is written by number")
                elif (i[3], k) not in log.numbered:
                    log.bad("number", key, it[3], "the numbers of the %s are never given" % show(("it", k)))
            if Rd.ok and not Rd.failed:
                if e is None:
                    und.append("origin of a field in section " + sec)
                    continue
                need = e[0] in NEEDED or e[0] == "call" and e[1].split("_")[0] in ("MV", "MF", "MR", "ME")
                if need and tid not in Rd.used and (rep, sec) not in DERIVED:
                    log.ob("meaning", sec)
                    log.bad("meaning", "%s|%s|%s" % (rd.name, sec, show(noid(e))), it[3] or rd.blocks[0][0].loc,
                            "%s, written in section '%s', is read and not used%s" % (show(noid(e)), sec, log.tag))
    return log, und, sorted(names)


def rep_arg(w):
    for i, t in enumerate(w.dargs):
        if t and "RepType" in t:
            return i
    raise Undecided("representation argument of the writer")


_P = None


def work(case):
    w, rd = _P.funcs["MESH_WriteToFile"], _P.funcs["MESH_InitFromFile"]
    try:
        log, und, names = one(_P, w, rd, case)
    except Undecided as e:
        log, und, names = Log(), [str(e)], []
    return log.obs, log.bads, und, case


def run(P, R):
    global _P
    _P = P
    g, s = P.globals.get("MESH_rtype"), P.globals.get("MESH_rtype_str")
    names = [x[1][:2] for x in s["init"][1]] if s and s.get("init") else []
    order = [x[1] for x in g["init"][1]] if g and g.get("init") else []
    R.ob("accepted", "names of representations", len(REPS))
    if order != list(range(5)) or names != REPS:
        R.bad("accepted", "MESH_rtype", "src/base/Mesh.c", "the names of the representations do not go with their numbers: %s %s" % (order, names))
    seen = set()
    for obs, bads, und, case in core.parallel(list(cases()), work):
        for (rule, what), n in obs.items():
            R.ob(rule, what, n)
        for b in bads:
            if b[:2] not in seen:
                seen.add(b[:2])
                R.bad(*b)
        for u in und:
            R.undec("accepted", u + " [%s %s %s %s]" % (case[1], case[2], case[4], case[5]))
