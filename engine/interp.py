"""Abstract interpreter over MIR facts (see DESIGN.md, "Engine").

Value domain: hash-consed terms (terms.py).  Paths are partitioned by the
branch atoms; calls are inlined; loops are summarised by a Mod-set fixpoint and
turned into folds.  Nothing is executed and no solver is involved."""
import functools, json, os, re, sys
from terms import *

sys.setrecursionlimit(20000)


class EngineError(Exception):
    pass


@functools.lru_cache(None)
def norm(s):
    """strip ::<..> generic arguments from a path"""
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s.startswith("::<", i) and not s.startswith("::<impl", i):
            d = 0
            j = i + 2
            while j < n:
                if s[j] == "<":
                    d += 1
                elif s[j] == ">" and s[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(s[i])
        i += 1
    return "".join(out)


class Body:
    def __init__(self, j):
        self.key = j["key"]
        self.deff = norm(j["def"])
        self.span = j["span"]
        self.argc = j["argc"]
        self.spread = j.get("spread")
        self.locals = j["locals"]
        self.names = j["names"]
        self.blocks = j["blocks"]
        self._cfg = False

    def succs(self, b):
        blk = self.blocks[b]
        if blk is None:
            return []
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[3]]
        if k == "yield":
            return [t[2]]
        return []

    def cfg(self):
        if self._cfg:
            return
        self._cfg = True
        n = len(self.blocks)
        # reachable + rpo
        order = []
        seen = set()
        st = [(0, iter(self.succs(0)))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s is not None and s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succs(s))))
                    break
            else:
                order.append(b)
                st.pop()
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succs(b):
                if s is not None:
                    preds[s].append(b)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]

        self.loops = {}
        for b in rpo:
            for s in self.succs(b):
                if s is not None and dom(s, b):
                    region = self.loops.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x in region:
                            continue
                        region.add(x)
                        w.extend(preds[x])
        self.rpo = rpo
        self.preds = preds
        self.idom = idom
        self.dom = dom
        # liveness of locals at loop heads
        use = {}
        dfn = {}
        borrowed = set()

        def uplace(p, u):
            u.add(p[0])
            for e in p[1]:
                if isinstance(e, list) and e[0] == "i":
                    u.add(e[1])

        def uop(o, u):
            if o[0] == "p":
                uplace(o[1], u)

        for b in rpo:
            u = set()
            d = set()
            blk = self.blocks[b]

            def use_(l):
                if l not in d:
                    u.add(l)

            class U(set):
                def add(s, l):
                    use_(l)

            uu = U()
            for s in blk["s"]:
                if s[0] != "=":
                    continue
                r = s[2]
                if r[0] in ("ref", "discr"):
                    uplace(r[1], uu)
                    if r[0] == "ref" and r[2]:
                        borrowed.add(r[1][0])
                else:
                    for o in r[1:]:
                        if isinstance(o, list):
                            if o and o[0] in ("p", "k") and len(o) >= 2:
                                uop(o, uu)
                            else:
                                for y in o:
                                    if isinstance(y, list) and y and y[0] in ("p", "k"):
                                        uop(y, uu)
                if s[1][1]:
                    uplace(s[1], uu)
                else:
                    d.add(s[1][0])
            t = blk["t"]
            if t[0] == "switch":
                uop(t[1], uu)
            elif t[0] == "drop":
                uplace(t[1], uu)
            elif t[0] == "call":
                uop(t[1], uu)
                for o in t[2]:
                    uop(o, uu)
                if t[3][1]:
                    uplace(t[3], uu)
                else:
                    d.add(t[3][0])
            elif t[0] == "assert":
                uop(t[1], uu)
            elif t[0] == "yield":
                uop(t[1], uu)
            elif t[0] == "return":
                uu.add(0)
            use[b] = u
            dfn[b] = d
        live = {b: set() for b in rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(rpo):
                out = set()
                for s in self.succs(b):
                    if s is not None:
                        out |= live[s]
                new = use[b] | (out - dfn[b])
                if new != live[b]:
                    live[b] = new
                    ch = True
        self.live = live
        self.borrowed = borrowed


class Program:
    def __init__(self, facts):
        self.dir = facts
        self.ix = json.load(open(os.path.join(facts, "index.json")))
        layouts(self.ix["adts"], self.ix.get("groups"))
        self.roots = {}
        for k, f in self.ix["roots"]:
            self.roots[k] = f
        self.encodings = {k: f for k, f in self.ix.get("encodings", ())}
        self._cache = {}

    def find_root(self, pat):
        """pat: a normalised def path, optionally exact ('=...')"""
        ks = [k for k in self.roots if norm(k.split("#[")[0]) == pat]
        if len(ks) != 1:
            raise EngineError("anchor %r: %d functions match" % (pat, len(ks)))
        return ks[0]

    def bodies(self, rootkey):
        if rootkey not in self._cache:
            insts = json.load(open(os.path.join(self.dir, self.roots.get(rootkey) or self.encodings[rootkey])))
            m = {}
            for i in insts:
                m[i["key"]] = Body(i)
            self._cache[rootkey] = (insts[0]["key"], m)
        return self._cache[rootkey]


class St:
    __slots__ = ("env", "facts", "ev", "act", "mem", "iters", "tr")

    def __init__(self):
        self.env = {}
        self.facts = {}
        self.ev = None
        self.act = {}
        self.mem = frozenset()
        self.iters = {}
        self.tr = None

    def fork(self):
        s = St()
        s.env = dict(self.env)
        s.facts = dict(self.facts)
        s.ev = self.ev
        s.act = dict(self.act)
        s.mem = self.mem
        s.tr = self.tr
        return s

    def trail(self):
        r = []
        e = self.tr
        while e is not None:
            if not r or r[-1] != e[1]:
                r.append(e[1])
            e = e[0]
        return r[::-1]

    def events(self):
        r = []
        e = self.ev
        while e is not None:
            r.append(e[1])
            e = e[0]
        return r[::-1]


class Ev:
    """An observable event on a path."""
    __slots__ = ("kind", "name", "args", "ret", "span", "fn", "extra", "done", "ren")

    def __init__(self, kind, name, args=(), ret=None, span=None, fn=None, extra=None):
        self.kind, self.name, self.args, self.ret, self.span, self.fn, self.extra = kind, name, args, ret, span, fn, extra
        self.done, self.ren = None, {}  # loops: the iterated sequence if it was exhausted; accumulators' final values

    def __repr__(self):
        return "%s %s(%s) -> %s @%s" % (self.kind, self.name, ", ".join(pretty(a) for a in self.args),
                                        pretty(self.ret) if self.ret is not None else None, self.span)


class Loop:
    """Summary of one loop at one place of one path."""

    def __init__(self):
        self.body = None
        self.head = None
        self.parts = []  # list of Part (back edges)
        self.exits = []
        self.it = None
        self.inits = {}
        self.span = None
        self.n = 0


class Part:
    def __init__(self, facts, st, events, updates):
        self.facts = facts  # delta: atom -> bool
        self.st = st
        self.events = events
        self.updates = updates  # (root,path) -> term

    def __repr__(self):
        return "Part[%s]{%s}" % (fmt_facts(self.facts), ", ".join("%s:=%s" % (k, pretty(v)) for k, v in self.updates.items()))


def fmt_facts(f):
    return " & ".join(("" if v is True else "!" if v is False else "%s:" % (v,)) + (pretty(k) if isinstance(k, T) else str(k)) for k, v in f.items())


class Out:
    __slots__ = ("kind", "st", "val", "info")

    def __init__(self, kind, st, val=None, info=None):
        self.kind, self.st, self.val, self.info = kind, st, val, info

    def __repr__(self):
        return "Out(%s,%s,%s)" % (self.kind, self.val, self.info)


class Ctx:
    """call context handed to models"""
    __slots__ = ("fid", "span", "retty", "argtys", "fn", "depth", "body", "bb", "loopframe")


# --------------------------------------------------------------------------
class Interp:
    MAXPATHS = 60000

    def __init__(self, prog, rootkey, opaque=None, erase=True):
        self.erase = erase
        self.prog = prog
        self.root, self.bodies = prog.bodies(rootkey)
        self.opaque = opaque or (lambda name, fn: False)
        self.nouts = 0
        self.stack = []
        self.functions = set()
        self.callsites = set()
        self.loops = []
        self.unsupported = []
        import models

        self.models = models

    # ---- boolean reasoning ------------------------------------------------
    def decide(self, st, t):
        op = t.op
        if op == "bool":
            return t.a[0]
        if op == "not":
            r = self.decide(st, t.a[0])
            return None if r is None else not r
        v = st.facts.get(t)
        if v is not None:
            return v
        if op == "and":
            a = self.decide(st, t.a[0])
            if a is False:
                return False
            b = self.decide(st, t.a[1])
            if b is False:
                return False
            if a and b:
                return True
            return None
        if op == "isvar" and t.a[0].op == "entry" and t.a[1] in ("Vacant", "Occupied"):
            l, k = t.a[0].a
            r = self.decide(st, has(self.read(st, *l.a), k))
            if r is not None:
                return r == (t.a[1] == "Occupied")
        if op == "eq":
            x, y = t.a
            # known via transitive equality
            if self.same(st, x, y):
                return True
            # one of them is known equal to a different constant
            cx, cy = self.constof(st, x), self.constof(st, y)
            if cx is not None and cy is not None and cx is not cy:
                return False
            return None
        if op == "isvar":
            x, v = t.a
            # exclusive variants
            for k, val in st.facts.items():
                if isinstance(k, T) and k.op == "isvar" and k.a[0] is x and val is True and k.a[1] != v:
                    return False
            return None
        if op == "has":
            m, k = t.a
            if m.op in ("ins", "rem"):
                e = self.decide(st, eq(m.a[1], k))
                if e is True:
                    return m.op == "ins"
                if e is False:
                    return self.decide(st, has(m.a[0], k))
                if m.op == "ins" and self.decide(st, has(m.a[0], k)) is True:
                    return True
                if m.op == "rem" and self.decide(st, has(m.a[0], k)) is False:
                    return False
            return None
        if op == "isempty":
            m = t.a[0]
            for k, val in st.facts.items():
                if val is True and isinstance(k, T) and k.op == "has" and k.a[0] is m:
                    return False
            return None
        return None

    def constof(self, st, x):
        if x.op in CONST_OPS:
            return x
        for k, v in st.facts.items():
            if v is True and isinstance(k, T) and k.op == "eq":
                a, b = k.a
                if a is x and b.op in CONST_OPS:
                    return b
                if b is x and a.op in CONST_OPS:
                    return a
        return None

    def same(self, st, x, y):
        if x is y:
            return True
        eqs = [k.a for k, v in st.facts.items() if v is True and isinstance(k, T) and k.op == "eq"]
        if not eqs:
            return False
        return Congruence(eqs).same(x, y)

    def assume(self, st, t, val):
        """add literal; returns False if contradictory"""
        if t.op == "allof":
            if val:
                k = ("forall", t.a[0])
                st.facts[k] = merge_forall(st.facts.get(k), t.a[1])
            return True
        d = self.decide(st, t)
        if d is not None:
            return d == val
        if t.op == "not":
            return self.assume(st, t.a[0], not val)
        if t.op == "and":
            if val:
                return self.assume(st, t.a[0], True) and self.assume(st, t.a[1], True)
            a = self.decide(st, t.a[0])
            b = self.decide(st, t.a[1])
            if a is True:
                return self.assume(st, t.a[1], False)
            if b is True:
                return self.assume(st, t.a[0], False)
            st.facts[t] = False
            return True
        if t.op == "isvar" and t.a[0].op == "entry" and t.a[1] in ("Vacant", "Occupied"):
            # what matching on an entry says about the map
            l, k = t.a[0].a
            if not self.assume(st, has(self.read(st, *l.a), k), val == (t.a[1] == "Occupied")):
                return False
        st.facts[t] = val
        if t.op == "eq" and val:
            # an element equal to something: that is in the collection
            for a, b in (t.a, t.a[::-1]):
                if a.op == "ekey" and not contains(b, a):
                    if not self.assume(st, has(a.a[0], b), True):
                        return False
        # derived quantified facts
        if t.op == "isempty" and val and t.a[0].op == "fold":
            f = t.a[0]
            if f.a[1].op == "empty":
                keep = [c for c, v in f.a[2] if v.op == "acc"]
                st.facts[("forall", f.a[0])] = merge_forall(st.facts.get(("forall", f.a[0])), keep)
        if t.op == "fold" and f_bool(t) is not None:
            init, changing, keep = f_bool(t)
            if val == init:
                st.facts[("forall", t.a[0])] = merge_forall(st.facts.get(("forall", t.a[0])), keep)
        return True

    def branch(self, st, t):
        """split on a boolean term -> [(bool, state)]"""
        d = self.decide(st, t)
        if d is not None:
            return [(d, st)]
        if t.op == "not":
            return [(not b, s) for b, s in self.branch(st, t.a[0])]
        if t.op == "and":
            r = []
            for b, s in self.branch(st, t.a[0]):
                if b:
                    r += self.branch(s, t.a[1])
                else:
                    r.append((False, s))
            return r
        if t.op == "has" and t.a[0].op in ("ins", "rem"):
            m, k = t.a
            r = []
            for b, s in self.branch(st, eq(m.a[1], k)):
                if b:
                    r.append((m.op == "ins", s))
                else:
                    r += self.branch(s, has(m.a[0], k))
            return r
        if t.op == "eq":
            # option equality: split
            x, y = t.a
        r = []
        for val in (True, False):
            s = st.fork()
            if self.assume(s, t, val):
                r += [(val, s2) for s2 in self.witness(s, t, val)]
        return r

    def witness(self, s, t, val):
        """the element which made the difference: [state]"""
        if t.op == "isempty" and not val and t.a[0].op == "fold" and t.a[0].a[1].op == "empty":
            f = t.a[0]
            alts = [c for c, v in f.a[2] if v.op in ("ins", "push") and v.a[0].op == "acc"]
            if len(alts) + sum(v.op == "acc" for _, v in f.a[2]) != len(f.a[2]):
                return [s]
        elif t.op == "fold" and f_bool(t) is not None and f_bool(t)[0] != val:
            f, alts = t, f_bool(t)[1]
        else:
            return [s]
        if f.a[0].op != "seq" or f.a[0].a[1] not in ("set", "map", "keys", "values"):
            return [s]
        m = f.a[0].a[0]
        n = itnum(s, f.a[0])
        ren = {T_("ekey", m, 0): T_("ekey", m, n)}
        s.act[m] = n + 1
        r = []
        for c in alts:
            s2 = s.fork()
            if all(self.assume(s2, subst(k, ren), b) for k, b in c) and self.assume(s2, has(m, T_("ekey", m, n)), True):
                r.append(s2)
        return r

    def split_variants(self, st, x, variants):
        """-> [(variant, state)] for an enum valued term"""
        if x.op == "adt":
            return [(x.a[1], st)]
        if x.op == "with":
            return self.split_variants(st, x.a[0], variants)
        if x.op == "opt":
            return [("Some" if b else "None", s) for b, s in self.branch(st, x.a[0])]
        if set(variants) == {"None", "Some"}:
            return [("Some" if b else "None", s) for b, s in self.branch(st, isvar(x, "Some"))]
        if set(variants) == {"Ok", "Err"}:
            return [("Ok" if b else "Err", s) for b, s in self.branch(st, isvar(x, "Ok"))]
        r = []
        for v in variants:
            d = self.decide(st, isvar(x, v))
            if d is True:
                return [(v, st)]
        left = [v for v in variants if self.decide(st, isvar(x, v)) is not False]
        for v in left:
            s = st.fork()
            if self.assume(s, isvar(x, v), True):
                r.append((v, s))
        return r

    # ---- memory -------------------------------------------------------------
    def read(self, st, root, path):
        v = st.env.get(root)
        if v is None:
            v = T_("undef", str(root))
        for e in path:
            if e[0] == "f":
                v = fld(v, e[1], e[2])
            elif e[0] == "at":
                v = get(v, e[1])
            else:
                v = idx(v, e[1])
        return v

    def write(self, st, root, path, val):
        if not path:
            st.env[root] = val
            return
        base = st.env.get(root)
        if base is None:
            base = T_("undef", str(root))
        st.env[root] = self._upd(base, path, val)

    def _upd(self, base, path, val):
        if not path:
            return val
        e = path[0]
        if e[0] == "f":
            return setfld(base, e[1], e[2], self._upd(fld(base, e[1], e[2]), path[1:], val))
        if e[0] == "at":
            return ins(base, e[1], self._upd(get(base, e[1]), path[1:], val))
        if base.op == "setidx" and base.a[1] is e[1]:
            base, old = base.a[0], base.a[2]
        else:
            old = idx(base, e[1])
        return T_("setidx", base, e[1], self._upd(old, path[1:], val))

    def lval(self, st, fid, p):
        root, path = (fid, p[0]), ()
        variant = None
        for e in p[1]:
            if e == "*":
                v = self.read(st, root, path)
                if v.op == "loc":
                    root, path = v.a
                variant = None
            elif e[0] == "f":
                # a closure or coroutine called by value
                v = self.read(st, root, path)
                if v.op == "loc" and self.read(st, *v.a).op in ("clo", "cor"):
                    root, path = v.a
                path = path + (("f", variant, e[1]),)
                variant = None
            elif e[0] == "d":
                variant = e[1]
            elif e[0] == "i":
                iv = st.env.get((fid, e[1]), T_("undef", "i"))
                v = self.read(st, root, path)
                if iv.op == "int" and v.op == "arr":
                    path = path + (("f", None, str(iv.a[0])),)
                else:
                    path = path + (("idx", iv),)
            elif e[0] == "c":
                off, fromend = e[1], e[2] if len(e) > 2 else False
                v = self.read(st, root, path)
                if v.op == "arr" and not fromend:
                    path = path + (("f", None, str(off)),)
                else:
                    path = path + (("idx", INT(-off if fromend else off)),)
            else:
                path = path + (("idx", T_("raw", str(e))),)
        return root, path

    def deref(self, st, v):
        """strip &mut"""
        while v.op == "loc":
            v = self.read(st, *v.a)
        return v

    def snapshot(self, st, v, depth=0):
        """value with every &mut inside replaced by mref(current value)"""
        if depth > 6:
            return v
        if v.op == "loc":
            return T_("mref", self.snapshot(st, self.read(st, *v.a), depth + 1))
        if not _has_loc(v):
            return v
        m = {}
        for x in subterms(v):
            if x.op == "loc":
                m[x] = T_("mref", self.snapshot(st, self.read(st, *x.a), depth + 1))
        return subst(v, m)

    def locs_in(self, v):
        return [x for x in subterms(v) if x.op == "loc"] if _has_loc(v) else []

    # ---- operands ---------------------------------------------------------
    def operand(self, st, fid, o):
        if o[0] == "p":
            root, path = self.lval(st, fid, o[1])
            v = self.read(st, root, path)
            if o[2] and v.op not in CONST_OPS:
                # a move out of a local: remember, for drops
                if not path:
                    st.env[root] = MOVED
                elif all(e[0] == "f" for e in path) and root[0] == fid and not any(x == "*" for x in o[1][1]):
                    self.write(st, root, path, MOVED)
            return v
        return self.const(o[1], st)

    def const(self, k, st=None):
        if "fn" in k:
            return fnval(k["fn"])
        if "bool" in k:
            return BOOL(k["bool"])
        if "int" in k:
            return INT(k["int"])
        if "str" in k:
            return STR(k["str"])
        if "bytes" in k:
            return T_("bytes", k["bytes"])
        if "variant" in k:
            p, v = k["variant"]
            fs = k.get("fields", [])
            return adt(p, v, tuple(str(i) for i in range(len(fs))), [self.const(f) for f in fs])
        if "tuple" in k:
            return tup([self.const(f) for f in k["tuple"]])
        if "array" in k:
            return T_("arr", tuple(self.const(f) for f in k["array"]))
        if "zst" in k:
            if k["zst"] == "()":
                return UNIT
            return T_("zst", strip_spans(k["zst"]))
        if "opaque" in k:
            return T_("const", strip_idx(k["opaque"]))
        if "closure" in k:
            return T_("clo", k["closure"], ())
        m = re.match(r"&\[.*; 0\]$", k.get("ty", ""))
        if m:
            return T_("arr", ())
        return T_("constx", strip_spans(json.dumps(k, sort_keys=True)))

    # ---- rvalues ------------------------------------------------------------
    def rvalue(self, st, fid, r, body):
        k = r[0]
        if k == "use":
            return self.operand(st, fid, r[1])
        if k == "ref":
            root, path = self.lval(st, fid, r[1])
            if r[2]:
                v = self.read(st, root, path)
                if v.op == "loc" and self.read(st, *v.a).op in ("clo", "cor"):
                    return v
                return loc(root, path)
            v = self.read(st, root, path)
            return v
        if k == "cast":
            v = self.operand(st, fid, r[1])
            kind = r[2]
            if kind.startswith("coerce") or kind in ("PtrToPtr",):
                return v
            if v.op == "int":
                return v
            if kind == "IntToInt":
                return v if v.op == "discr" else T_("cast", v, r[3])
            return T_("app", "cast:" + kind, (v,))
        if k == "bin":
            a = self.operand(st, fid, r[2])
            b = self.operand(st, fid, r[3])
            return binop(r[1], a, b)
        if k == "un":
            a = self.operand(st, fid, r[2])
            if r[1] == "Not":
                return bnot(a)
            if r[1] == "PtrMetadata":
                return length(a)
            return T_("app", "un:" + r[1], (a,))
        if k == "discr":
            root, path = self.lval(st, fid, r[1])
            v = self.read(st, root, path)
            v = self.deref(st, v)
            names = r[2]
            if v.op == "adt":
                for i, n in names:
                    if n == v.a[1]:
                        return INT(i)
            return T_("discr", v, tuple((i, n) for i, n in names))
        if k == "adt":
            vals = [self.operand(st, fid, o) for o in r[4]]
            return adt(r[1], r[2], r[3], vals)
        if k == "tuple":
            return tup([self.operand(st, fid, o) for o in r[1]])
        if k == "array":
            return T_("arr", tuple(self.operand(st, fid, o) for o in r[1]))
        if k in ("closure", "coroutine"):
            return T_("clo" if k == "closure" else "cor", r[1], tuple(self.operand(st, fid, o) for o in r[2]))
        if k == "repeat":
            return T_("repeat", self.operand(st, fid, r[1]))
        if k == "static":
            return T_("static", str(r[1]))
        return T_("rv", json.dumps(r)[:80])

    # ---- functions --------------------------------------------------------
    def run(self, argvals=None):
        """analyse the root function; returns outcomes"""
        body = self.bodies[self.root]
        st = St()
        args = []
        for i in range(1, body.argc + 1):
            ty = body.locals[i]
            nm = "arg%d" % i
            for n, p in body.names:
                if p[0] == i and not p[1]:
                    nm = n
            if argvals and nm in argvals:
                args.append(argvals[nm])
            elif argvals and i in argvals:
                args.append(argvals[i])
            elif ty.startswith("&mut ") or re.match(r"&'\S+ mut ", ty):
                st.env[("arg", i)] = sym("arg%d" % i)
                args.append(loc(("arg", i)))
            else:
                args.append(sym("arg%d" % i))
        outs = self.inline(self.root, args, st, (), None)
        # an async fn returns its coroutine: run it
        r = []
        for o in outs:
            if o.kind == "ret" and o.val.op == "cor":
                r += self.run_cor(o.val, o.st, ("co",), None)
            else:
                r.append(o)
        return r

    def run_cor(self, cor, st, fid, ctx):
        key = cor.a[0]
        if key not in self.bodies:
            return [Out("ret", st, app("await", cor))]
        st.env[("cor", fid)] = cor
        outs = self.inline(key, [loc(("cor", fid)), sym("cx")], st, fid, ctx)
        return outs

    def inline(self, key, args, st, fid, span):
        body = self.bodies[key]
        if len(self.stack) > 70 or self.stack.count(key) > 2:
            raise EngineError("recursion in %s" % key[:80])
        self.functions.add(key.split("#[")[0])
        self.stack.append(key)
        try:
            body.cfg()
            if body.spread is not None:
                # closure body called with a tuple / or spread args
                pass
            for i, a in enumerate(args):
                st.env[(fid, i + 1)] = a
            outs = self.blocks(body, 0, st, fid, None, None)
        finally:
            self.stack.pop()
        res = []
        for o in outs:
            if o.kind == "ret":
                v = self.operand_nomove(o.st, fid, 0)
                self.popframe(o.st, fid, v)
                res.append(Out("ret", o.st, v))
            else:
                res.append(o)
        return res

    def operand_nomove(self, st, fid, l):
        return st.env.get((fid, l), UNIT)

    def popframe(self, st, fid, v):
        keep = None
        for k in [k for k in st.env if k[0] == fid]:
            if keep is None:
                keep = {x.a[0] for x in self.locs_in(v)}
            if k not in keep:
                del st.env[k]

    # ---- control flow -------------------------------------------------------
    def blocks(self, body, bb, st, fid, head, region):
        """explore from bb; stop at `head` (back edge) or outside `region`."""
        outs = []
        work = [(bb, st, True)]
        while work:
            b, s, first = work.pop()
            while True:
                if not first:
                    if b == head:
                        outs.append(Out("back", s))
                        break
                    if region is not None and b not in region:
                        outs.append(Out("exit", s, b))
                        break
                if b in body.loops and not (first and b == head):
                    for o in self.loop(body, b, s, fid):
                        if o.kind == "exit":
                            work.append((o.val, o.st, False))
                        else:
                            outs.append(o)
                    break
                first = False
                nxt = self.block(body, b, s, fid, outs, head)
                if not nxt:
                    break
                for (b2, s2) in nxt[1:]:
                    work.append((b2, s2, False))
                b, s = nxt[0]
            self.nouts += 1
            if self.nouts > self.MAXPATHS:
                raise EngineError("path budget exceeded in %s" % self.root[:80])
        return outs

    def block(self, body, b, st, fid, outs, head):
        blk = body.blocks[b]
        for s in blk["s"]:
            if s[0] == "=":
                v = self.rvalue(st, fid, s[2], body)
                root, path = self.lval(st, fid, s[1])
                self.write(st, root, path, v)
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "return":
            outs.append(Out("ret", st))
            return []
        if k == "unreachable":
            return []
        if k == "drop":
            self.drop(body, t, st, fid, blk)
            return [(t[2], st)]
        if k == "switch":
            r = self.switch(body, t, st, fid)
            if len(r) > 1:
                for _, s in r:
                    s.tr = (s.tr, blk["l"])
            return r
        if k == "assert":
            c = self.operand(st, fid, t[1])
            r = []
            for v, s in self.branch(st, c if t[2] else bnot(c)):
                if v:
                    r.append((t[3], s))
                else:
                    outs.append(Out("panic", s, None, ("assert", t[4], body.deff, t[5])))
            return r
        if k == "yield":
            # resumption is not modelled: awaited futures are ready
            return []
        if k == "call":
            return self.callterm(body, b, t, st, fid, outs, head)
        raise EngineError("unsupported terminator %s in %s" % (t, body.key[:80]))

    def drop(self, body, t, st, fid, blk):
        root, path = self.lval(st, fid, t[1])
        if path == () or root[0] == fid:
            ty = body.locals[t[1][0]]
            if any(x in ty for x in DROPTYPES) and not t[1][1]:
                v = self.read(st, root, path)
                if v is not MOVED and not _moved_inside(v):
                    st.ev = (st.ev, Ev("drop", ty, (self.snapshot(st, v),), None, blk["l"], body.deff))
                    st.env[root] = MOVED

    def switch(self, body, t, st, fid):
        v = self.operand(st, fid, t[1])
        targets, other = t[2], t[3]
        r = []
        if v.op == "discr":
            x, names = v.a
            nm = dict(names)
            tgt = dict((a, b) for a, b in targets)
            for vn, s in self.split_variants(st, x, [n for _, n in names]):
                i = [i for i, n in names if n == vn]
                if not i:
                    continue
                b = tgt.get(i[0], other)
                if b is not None:
                    r.append((b, s))
            return r
        if v.op == "int":
            for a, b in targets:
                if a == v.a[0]:
                    return [(b, st)]
            return [(other, st)] if other is not None else []
        if t[4] == "bool" or v.op == "bool":
            fb = [b for a, b in targets if a == 0]
            tb = [b for a, b in targets if a == 1]
            fb = fb[0] if fb else other
            tb = tb[0] if tb else other
            for val, s in self.branch(st, v):
                b = tb if val else fb
                if b is not None:
                    r.append((b, s))
            return r
        # integer switch on an unknown
        rest = st
        for a, b in targets:
            c = eq(v, INT(a))
            nxt = None
            for val, s in self.branch(rest, c):
                if val:
                    r.append((b, s))
                else:
                    nxt = s
            if nxt is None:
                return r
            rest = nxt
        if other is not None:
            r.append((other, rest))
        return r

    def callterm(self, body, b, t, st, fid, outs, head):
        f = self.operand(st, fid, t[1])
        args = [self.operand(st, fid, a) for a in t[2]]
        ctx = Ctx()
        ctx.fid = fid + (b,)
        ctx.span = t[5]
        ctx.argtys = t[6]
        ctx.retty = t[7]
        ctx.body = body
        ctx.bb = b
        ctx.loopframe = (fid, head)
        self.callsites.add((body.deff, b))
        res = []
        for o in self.call(f, args, st, ctx):
            if o.kind == "ret":
                if t[4] is None:
                    # nothing comes back from a function that does not return
                    if f.op == "fn":
                        outs.append(Out("panic", o.st, None, ("panic", fname(FN[f]), body.deff, ctx.span)))
                    continue
                root, path = self.lval(o.st, fid, t[3])
                self.write(o.st, root, path, o.val)
                res.append((t[4], o.st))
            elif o.kind == "back":
                # the loop of this frame continues without running the body
                outs.append(o)
            else:
                outs.append(o)
        return res

    # ---- calls ------------------------------------------------------------------
    def call(self, f, args, st, ctx):
        f = self.deref(st, f)
        if f.op == "fn":
            return self.callfn(FN[f], args, st, ctx)
        if f.op == "clo":
            return self.callclo(f, args, st, ctx)
        return self.opaque_call("call", [f] + args, st, ctx, None)

    def callclo(self, f, args, st, ctx, selfval=None):
        """args: list of actual arguments; a closure body takes (self, args...)"""
        key = f.a[0]
        if key not in self.bodies:
            return self.opaque_call("closure", [f] + args, st, ctx, None)
        body = self.bodies[key]
        # upvalues by value that the closure mutates live in the closure object
        return self.inline(key, [selfval if selfval is not None else f] + args, st, ctx.fid + ("c",), ctx.span)

    def call_value(self, f, args, st, ctx):
        """invoke a callable term with the given argument list"""
        sv = None
        if f.op == "loc":
            sv = f
        f = self.deref(st, f)
        if f.op == "clo":
            if sv is None:
                # give by-value captured state a home
                root = (ctx.fid, "clo")
                st.env[root] = f
                sv = loc(root)
                outs = self.callclo(f, args, st, ctx, sv)
                return outs
            return self.callclo(f, args, st, ctx, sv)
        if f.op == "fn":
            return self.callfn(FN[f], args, st, ctx)
        return self.opaque_call("callback", [f] + args, st, ctx, None)

    def callfn(self, fn, args, st, ctx):
        name = fname(fn)
        if fn.get("ctor"):
            c = fn["ctor"]
            if isinstance(c, (list, tuple)) and len(c) >= 2:
                return [Out("ret", st, adt(c[0], c[1], tuple(str(i) for i in range(len(args))), args))]
            p = norm(fn.get("rdef") or fn["def"])
            parts = p.split("::")
            if c == "variant" or (len(parts) > 1 and parts[-2][:1].isupper()):
                return [Out("ret", st, adt("::".join(parts[:-1]), parts[-1], tuple(str(i) for i in range(len(args))), args))]
            return [Out("ret", st, adt(p, parts[-1], tuple(str(i) for i in range(len(args))), args))]
        if self.opaque(name, fn):
            return self.opaque_call(name, args, st, ctx, fn)
        m = self.models.lookup(fn, name, self)
        if m is not None:
            r = m(self, st, args, ctx, fn)
            if r is not None:
                return r
        key = fn.get("key")
        if key in self.bodies and not self.bodies[key].blocks == []:
            body = self.bodies[key]
            # async fn bodies come back as coroutine values
            if fn["name"] in ("call", "call_mut", "call_once") and body.argc != len(args):
                pass
            return self.inline(key, args, st, ctx.fid, ctx.span)
        return self.opaque_call(name, args, st, ctx, fn)

    def opaque_call(self, name, args, st, ctx, fn):
        snap = [self.snapshot(st, a) for a in args]
        targs = ()
        if fn is not None:
            targs = tuple(strip_idx(x) for x in (fn.get("rargs") or fn.get("args") or ()) if not x.startswith("'"))
        if targs and name in TYPED_CALLS:
            snap = list(snap) + [STR(TYPED_CALLS[name] + targs[0])]
        elif targs and name.endswith(">::downcast"):
            snap = list(snap) + [STR("as " + ",".join(targs))]
        ret = T_("app", name, tuple(snap))
        st.ev = (st.ev, Ev("call", name, tuple(snap), ret, ctx.span, fn, (targs, ctx)))
        # effects through mutable references
        for i, a in enumerate(args):
            ls = self.locs_in(a)
            for j, l in enumerate(ls):
                self.havoc(st, l, ret, (i, j) if a.op != "loc" else (i,))
        return [Out("ret", st, ret)]

    def havoc(self, st, l, ret, ix):
        root, path = l.a
        v = self.read(st, root, path)
        inner = self.locs_in(v)
        if inner:
            for j, x in enumerate(inner):
                self.havoc(st, x, ret, ix + (j,))
            return
        self.write(st, root, path, T_("post", ret, ix))

    # ---- loops ------------------------------------------------------------------
    def loop(self, body, head, st, fid):
        region = body.loops[head]

        def runner(s):
            return self.blocks(body, head, s, fid, head, region)

        live = body.live[head] | body.borrowed
        st = self.drained(body, region, st, fid)
        return self.do_loop(runner, st, (fid, head), lambda root: root[0] != fid or not isinstance(root[1], int) or root[1] in live,
                            body, body.blocks[head]["l"])

    DRAINS = {"pop_first": ("map", "set"), "pop_last": ("map", "set"), "pop_front": ("vec",)}

    def drained(self, body, region, st, fid):
        """a collection of this function which a loop only takes elements from, one by one, is iterated over"""
        for bi in region:
            t = body.blocks[bi]["t"]
            if t[0] != "call" or t[1][0] != "k" or not isinstance(t[1][1], dict) or t[1][1].get("fn", {}).get("name") not in self.DRAINS:
                continue
            a = t[2][0]
            if a[0] != "p" or a[1][1]:
                continue
            src = [x[2][1] for x in body.blocks[bi]["s"] if x[0] == "=" and x[1] == [a[1][0], []] and x[2][0] == "ref"]
            if len(src) != 1 or src[0][1]:
                continue
            l = src[0][0]
            uses = 0
            for bj in region:
                stack = [body.blocks[bj]["s"], body.blocks[bj]["t"]]
                while stack:
                    y = stack.pop()
                    if isinstance(y, (list, tuple)):
                        if len(y) == 2 and y[0] == l and type(y[0]) is int and isinstance(y[1], list) and y is not None:
                            uses += 1
                        stack.extend(y)
            if uses != 1 or (fid, l) not in st.env:
                continue
            v = self.read(st, (fid, l), ())
            if v.op in ("it", "itm", "itd", "loc", "undef"):
                continue
            ty = str(body.locals[l])
            head = re.sub(r"^&('\S+ )?(mut )?", "", ty).split("<")[0]
            k = "map" if head.endswith("Map") else "set" if head.endswith("Set") else "vec"
            if k not in self.DRAINS[t[1][1]["fn"]["name"]]:
                continue
            st = st.fork()
            self.write(st, (fid, l), (), ITERATE(v, k))
        return st

    def do_loop(self, runner, st, name, islive, body, span):
        mods = {}
        # dead temporaries do not matter
        for k in [k for k in st.env if not islive(k)]:
            del st.env[k]
        for rnd in range(30):
            s1 = st.fork()
            fresh = {}
            for (root, path), _ in mods.items():
                v0 = self.read(st, root, path)
                if v0.op == "it" or v0.op == "itm":
                    self.write(s1, root, path, T_("itm", v0.a[0], v0.a[1], self.itnum(st, v0)))
                    fresh[(root, path)] = v0
                else:
                    mu = T_("mu", str(name), str(root), str(path))
                    if _is_collection_loc(v0):
                        pass
                    self.write(s1, root, path, mu)
                    for x in subterms(v0):
                        pass
            # iterators over &mut collections: keys visited once
            for (root, path), v0 in fresh.items():
                self._mark_mudom(st, s1, v0, mods, name)
            for k, v0 in fresh.items():
                for c in colls(v0.a[0]):
                    s1.act[c] = s1.act.get(c, 0) + 1
            s1.ev = None
            base_facts = dict(s1.facts)
            outs = runner(s1.fork())
            new = False
            for o in outs:
                if o.kind == "back":
                    for k in [k for k in o.st.env if not islive(k)]:
                        del o.st.env[k]
                    for rp in self.diff(s1, o.st):
                        if not any(rp[0] == m[0] and rp[1][:len(m[1])] == m[1] for m in mods):
                            # drop finer ones
                            for m in [m for m in mods if m[0] == rp[0] and m[1][:len(rp[1])] == rp[1]]:
                                del mods[m]
                            mods[rp] = True
                            new = True
            if not new:
                break
            if rnd == 0 and any(literal_it(self.read(st, *m)) for m in mods):
                return self.unroll(runner, st, islive)
        else:
            raise EngineError("loop did not stabilise")
        rec = Loop()
        rec.body = body
        rec.head = name
        rec.span = span
        rec.prefix = st
        rec.inits = {m: self.read(st, *m) for m in mods}
        rec.its = fresh
        rec.mu = {m: T_("mu", str(name), str(m[0]), str(m[1])) for m in mods if m not in fresh}
        for o in outs:
            if o.kind == "back":
                delta = {k: v for k, v in o.st.facts.items() if base_facts.get(k) != v and k not in o.st.mem}
                ups = {}
                for m in mods:
                    v = self.read(o.st, *m)
                    if v is not self.read(s1, *m):
                        ups[m] = v
                rec.parts.append(Part(delta, o.st, o.st.events(), ups))
        rec.start = s1
        self.loops.append(rec)
        res = []
        for o in outs:
            if o.kind == "back":
                continue
            iter_ev = o.st.events()
            done = None
            for m, v0 in fresh.items():
                cur = self.read(o.st, *m)
                if cur.op == "itd":
                    done = (m, v0)
            s = o.st
            lev = Ev("loop", "loop", (), None, span, body.deff if body else None, rec)
            ev = (st.ev, lev)
            for e in iter_ev:
                ev = (ev, e)
            s.ev = ev
            for m, v0 in fresh.items():
                if self.read(s, *m).op == "itd":
                    for c in colls(v0.a[0]):
                        s.act[c] = max(0, s.act.get(c, 1) - 1)
            if done is not None and len(fresh) >= 1:
                lev.ren = self.exhaust(s, rec, done[1], mods, name, st, fresh)
                lev.done = done[1].a[0]
            rec.exits.append((o.kind, o.val, s, done is not None, iter_ev))
            res.append(o)
        return res

    def unroll(self, runner, st, islive):
        """a loop over a few elements written out in the source: one iteration after the other"""
        res, cur = [], [st]
        for _ in range(12):
            nxt = []
            for s in cur:
                for o in runner(s):
                    if o.kind == "back":
                        for k in [k for k in o.st.env if not islive(k)]:
                            del o.st.env[k]
                        nxt.append(o.st)
                    else:
                        res.append(o)
            cur = nxt
            if not cur:
                return res
        raise EngineError("loop over a literal sequence did not end")

    def itnum(self, st, v0):
        return INT(itnum(st, v0.a[0]))

    def _mark_mudom(self, st, s1, v0, mods, name):
        def seqs(t):
            if t.op == "seq":
                yield t
            for x in t.a:
                if isinstance(x, T):
                    yield from seqs(x)

        for sq in seqs(v0.a[0]):
            if len(sq.a) > 2 and isinstance(sq.a[2], T) and sq.a[2].op == "loc":
                l = sq.a[2]
                cur = self.read(s1, *l.a)
                if cur.op == "mu":
                    MUDOM[cur] = sq.a[0]

    def absent(self, s, canon, conds, n):
        """a search of a set or map that found nothing: what was searched for is not in it. True if that is all it says"""
        if len(conds) == 2 and all(len(c) == 1 for c in conds) and conds[0][0][0] is conds[1][0][0] and {c[0][1] for c in conds} == {True, False}:
            return True
        comps = [c.a[0] for c in components(canon) if c.op == "seq" and c.a[1] in ("set", "map", "keys")]
        done = 0
        for M in comps:
            k = T_("ekey", M, n)
            common, mine = None, [c for c in conds if any(contains(f, k) for f, v in c)]
            if len(comps) == 1 and len(mine) < len(conds) or not mine:
                continue
            for c in mine:
                here = {y if x is k else x for f, v in c if v is False and f.op == "eq" for x, y in (f.a,) if (x is k) != (y is k)}
                common = here if common is None else common & here
            for w in sorted(common or (), key=str):
                if not any(contains(w, T_("ekey", m, n)) for m in comps) and self.assume(s, has(M, w), False):
                    done += all(len(c) == 1 for c in mine)
        return bool(comps) and done == len(comps) == len(components(canon)) and len(conds) == done

    def exhaust(self, s, rec, v0, mods, name, st0, fresh):
        """normal end of an iterator loop: accumulators become folds"""
        base = v0.a[0]
        canon = canon_seq(base)
        n = itnum(st0, base)
        accs = {}
        for m in mods:
            if m in fresh:
                continue
            mu = T_("mu", str(name), str(m[0]), str(m[1]))
            accs[m] = mu
        reps = {}
        parts_conds = []
        for p in rec.parts:
            lits = [(k, v) for k, v in p.facts.items() if isinstance(k, T)]
            for k, v in p.facts.items():
                if isinstance(k, tuple) and k[0] == "forall" and all(d for d in v):
                    lits += [(T_("allof", k[1], d), True) for d in v if any(c for c in d)]
            own = {m: T_("ekey", m, n) for m in (c.a[0] for c in components(canon) if c.op == "seq")}
            held = {(k.a, v) for k, v in lits if v is True and k.op == "eq"}
            lits = [(k, v) for k, v in lits if not (v is True and k.op == "has" and k.a[0] in own and own[k.a[0]] is not k.a[1]
                                                    and any({*a} == {own[k.a[0]], k.a[1]} for a, _ in held))]
            parts_conds.append(tuple(sorted(lits, key=lambda kv: kv[0].n)))
        if not self.absent(s, canon, parts_conds, n):
            s.facts[("forall", canon)] = merge_forall(s.facts.get(("forall", canon)), parts_conds)
        for m, mu in accs.items():
            init = rec.inits[m]
            parts = []
            for p, c in zip(rec.parts, parts_conds):
                v = p.updates.get(m, mu)
                parts.append((c, subst(v, {mu: T_("acc")})))
            reps[mu] = mk_fold(canon, init, parts, n)
        # what one accumulator reads of another is its state during the iteration
        ats = {mu: T_("at", r) for mu, r in reps.items() if not any(contains(r, mu2) for mu2 in reps)}
        for mu, r in list(reps.items()):
            if mu not in ats and any(contains(r, mu2) for mu2 in ats):
                if r.op == "fold":
                    reps[mu] = mk_fold(r.a[0], r.a[1], [(tuple((subst(k, ats), b) for k, b in c), subst(v, ats)) for c, v in r.a[2]], n)
        # resolve mutual references: only replace the accumulator's own current value
        for m, mu in accs.items():
            cur = self.read(s, *m)
            if contains(cur, mu):
                self.write(s, m[0], m[1], subst(cur, reps))
        # temporaries still mentioning mu
        for k, v in list(s.env.items()):
            if any(contains(v, mu) for mu in reps):
                s.env[k] = subst(v, reps)
        for k in [k for k in s.facts if isinstance(k, T) and any(contains(k, mu) for mu in reps)]:
            val = s.facts.pop(k)
            k2 = subst(k, reps)
            if k2.op != "bool":
                s.facts[k2] = val
        return reps

    def diff(self, s1, s2):
        r = []
        for root in set(s1.env) | set(s2.env):
            a = s1.env.get(root)
            b = s2.env.get(root)
            if a is b:
                continue
            if a is None:
                continue  # created inside the loop
            if b is None:
                b = T_("undef", str(root))
            r += self._diff(root, (), a, b)
        return r

    def _diff(self, root, path, a, b):
        if a is b:
            return []
        if a.op == "it" or a.op == "itm":
            return [(root, path)]
        if a.op == "adt" and b.op == "adt" and a.a[0] == b.a[0] and a.a[1] == b.a[1] and a.a[2] == b.a[2] and a.a[3]:
            r = []
            single = a.a[0].split("::")[-1] == a.a[1]
            for n, x, y in zip(a.a[2], a.a[3], b.a[3]):
                r += self._diff(root, path + (("f", None if single else a.a[1], n),), x, y)
            return r
        if a.op == "tup" and b.op == "tup" and len(a.a[0]) == len(b.a[0]):
            r = []
            for i, (x, y) in enumerate(zip(a.a[0], b.a[0])):
                r += self._diff(root, path + (("f", None, str(i)),), x, y)
            return r
        if a.op in ("clo", "cor") and b.op == a.op and a.a[0] == b.a[0]:
            r = []
            for i in range(max(len(a.a[1]), len(b.a[1]))):
                r += self._diff(root, path + (("f", None, str(i)),), fld(a, None, str(i)), fld(b, None, str(i)))
            return r
        if a.op == "with" or b.op == "with":
            ba = a.a[0] if a.op == "with" else a
            bb = b.a[0] if b.op == "with" else b
            if ba is bb:
                keys = {(u[0], u[1]) for t in (a, b) if t.op == "with" for u in t.a[1]}
                r = []
                for v, n in sorted(keys, key=str):
                    r += self._diff(root, path + (("f", v, n),), fld(a, v, n), fld(b, v, n))
                return r
        return [(root, path)]


def canon_seq(base):
    if base.op == "seq":
        return T_("seq", base.a[0], base.a[1])
    if base.op in ("chain", "zip", "rev"):
        return T_(base.op, *[canon_seq(x) if isinstance(x, T) else x for x in base.a])
    return base


def colls(base):
    """the collections behind a sequence"""
    if base.op in ("seq",):
        return [base.a[0]]
    if base.op in ("chain", "zip", "rev"):
        r = []
        for x in base.a:
            if isinstance(x, T):
                r += colls(x.a[0]) if x.op in ("it", "itm") else colls(x)
        return list(dict.fromkeys(r))
    return [base]


def chain_pieces(it, top=True):
    """the parts of a chain which has single elements among them"""
    if it.op != "it" or any(k == "enumerate" for k, _ in it.a[1]):
        return None
    b = it.a[0]
    if b.op == "once":
        return [it]
    if b.op == "seq" and b.a[0].op == "arr" and len(b.a) == 2 and len(b.a[0].a[0]) <= 8:
        return [T_("it", T_("once", x), it.a[1]) for x in b.a[0].a[0]]
    if b.op == "optseq" and b.a[0].op == "adt" and b.a[0].a[1] in ("Some", "None"):
        return [T_("it", T_("once", x), it.a[1]) for x in b.a[0].a[3]]
    if b.op != "chain":
        return None if top else [it]
    r = []
    for x in b.a:
        p = chain_pieces(T_("it", x.a[0], x.a[1] + it.a[1]), False) if x.op == "it" else None
        if p is None:
            return None
        r += p
    return r if not top or not r or any(x.a[0].op == "once" for x in r) or leaves(b) != len(r) else None


def leaves(b):
    return sum(leaves(x.a[0]) for x in b.a) if b.op == "chain" else 1


def literal_it(it):
    """the elements of an iterator over nothing but elements written out in the source"""
    p = chain_pieces(it)
    return p if p is not None and all(x.a[0].op == "once" for x in p) else None


def itnum(st, base):
    """elements of these collections which have a name already"""
    return max([st.act.get(c, 0) for c in colls(base)] or [0])


def components(base):
    """the sequences a chain of plain iterators runs through; a filtered one stands for itself"""
    if base.op == "chain":
        r = []
        for x in base.a:
            if isinstance(x, T):
                r += components(x.a[0]) if x.op == "it" and not x.a[1] else components(x) if x.op not in ("it", "itm") else [x]
        return r
    return [base]


def merge_forall(old, new):
    new = tuple(sorted(set(new), key=str))
    if old is None:
        return (new,)
    return old + (new,) if new not in old else old


def fused(seq, parts):
    """what is collected into a list and then gone through is gone through directly"""
    if seq.op != "seq" or seq.a[0].op != "fold" or seq.a[0].a[1].op != "empty" or len(seq.a) != 2:
        return None
    inner = seq.a[0]
    for _, v in inner.a[2]:
        if not (v.op == "acc" or v.op == "push" and v.a[0].op == "acc" and not any(t.op == "acc" for t in subterms(v.a[1]))):
            return None
    els = {t for c, v in parts for x in [v] + [k for k, _ in c] for t in subterms(x) if t.op == "elem" and t.a[0] is seq}
    if len(els) > 1:
        return None
    out = []
    for c, v in inner.a[2]:
        if v.op == "acc":
            out.append((c, v))
            continue
        m = {e: v.a[1] for e in els}
        for d, w in parts:
            ls = [(subst(k, m), b) for k, b in d]
            if any(k is t and b != b2 for k, b in ls for t, b2 in c) or any(k.op == "bool" and (k is TRUE) != b for k, b in ls):
                continue
            ls = [(k, b) for k, b in ls if k.op != "bool"]
            out.append((tuple(dict.fromkeys(tuple(c) + tuple(ls))), subst(w, m)))
    return inner.a[0], out


def mk_fold(seq, init, parts, n=0):
    f = fused(seq, parts)
    if f is not None:
        return mk_fold(f[0], init, f[1], n)
    parts = [p for p in parts]
    # identical values: drop the conditions
    vals = {v for _, v in parts}
    if len(vals) == 1:
        v = next(iter(vals))
        if v.op == "acc":
            return init
        parts = [((), v)]
        # collecting every element of a set / map unchanged
        if seq.op == "seq" and v.op == "ins" and v.a[0].op == "acc" and v.a[1] is T_("ekey", seq.a[0], n):
            mode = seq.a[1]
            if init.op == "empty":
                if mode in ("set",) and v.a[2] is UNIT:
                    return seq.a[0]
                if mode in ("map",) and v.a[2] is get(seq.a[0], v.a[1]):
                    return seq.a[0]
    # all but one
    if init.op == "empty" and seq.op == "seq" and seq.a[1] in ("set", "map") and len(parts) == 2:
        k = T_("ekey", seq.a[0], n)
        for (c, v), (d, w) in (parts, parts[::-1]):
            if w.op == "acc" and v.op == "ins" and v.a[0].op == "acc" and v.a[1] is k and len(c) == len(d) == 1 and c[0][0] is d[0][0] \
                    and c[0][1] is False and d[0][1] is True and c[0][0].op == "eq" and v.a[2] is (UNIT if seq.a[1] == "set" else get(seq.a[0], k)):
                for x, y in (c[0][0].a, c[0][0].a[::-1]):
                    if x is k and not contains(y, k):
                        return rem(seq.a[0], y)
    # a flag telling whether an element equal to something was met
    if init.op == "bool" and seq.op == "seq" and seq.a[1] in ("set", "map", "keys") and len(parts) == 2:
        k = T_("ekey", seq.a[0], n)
        for (c, v), (d, w) in (parts, parts[::-1]):
            if v.op == "bool" and v is not init and (w.op == "acc" or w is init) and len(c) == len(d) == 1 and c[0][0] is d[0][0] \
                    and c[0][1] is True and d[0][1] is False and c[0][0].op == "eq":
                for x, y in (c[0][0].a, c[0][0].a[::-1]):
                    if x is k and not contains(y, k):
                        return has(seq.a[0], y) if v is TRUE else bnot(has(seq.a[0], y))
    # merge partitions with the same value
    m = {}
    for c, v in parts:
        m.setdefault(v, set()).add(c)
    merged = []
    for v, cs in m.items():
        cs = list(cs)
        common = set(cs[0])
        for c in cs[1:]:
            common &= set(c)
        if len(cs) == 1:
            merged.append((cs[0], v))
        else:
            for c in cs:
                merged.append((c, v))
    merged.sort(key=lambda cv: (str([(k.n, b) for k, b in cv[0]]), cv[1].n))
    return T_("fold", seq, init, tuple(merged))


def f_bool(t):
    """boolean fold: (init, changing partitions, keeping partitions) if it can only flip away from init"""
    init = t.a[1]
    if init.op != "bool":
        return None
    ch, keep = [], []
    for c, v in t.a[2]:
        if v.op == "acc" or v is init:
            keep.append(c)
        elif v.op == "bool":
            ch.append(c)
        elif v.op == "and" and any(x.op == "acc" for x in v.a) and init is TRUE:
            o = [x for x in v.a if x.op != "acc"][0]
            keep.append(c + lits(o))
            ch.append(c)
        elif v.op == "not" and v.a[0].op == "and" and init is FALSE:
            # acc | x  ==  !( !acc & !x )
            xs = v.a[0].a
            if any(x.op == "not" and x.a[0].op == "acc" for x in xs):
                o = [x for x in xs if not (x.op == "not" and x.a[0].op == "acc")][0]
                keep.append(c + lits(o))
                ch.append(c)
            else:
                return None
        else:
            return None
    return init.a[0], ch, keep


def lits(t):
    if t.op == "and":
        return lits(t.a[0]) + lits(t.a[1])
    if t.op == "not":
        return ((t.a[0], False),)
    return ((t, True),)


DROPTYPES = ("mpsc::bounded::Sender<", "mpsc::bounded::Receiver<", "JoinHandle<", "Arc<")


def _moved_inside(v):
    return v is MOVED


def _has_loc(v):
    return _hl(v)


_hlc = {}


def _hl(v):
    r = _hlc.get(v)
    if r is None:
        r = v.op == "loc" or any(_hl(x) for x in _ch(v))
        _hlc[v] = r
    return r


def _ch(v):
    def w(x):
        for y in x:
            if isinstance(y, T):
                yield y
            elif isinstance(y, tuple):
                yield from w(y)

    return w(v.a)


def _is_collection_loc(v):
    return v.op in ("ins", "rem", "empty", "fold")


def strip_spans(s):
    return re.sub(r"@[^\s:]*:\d+:\d+: \d+:\d+", "", s)


def strip_idx(s):
    return re.sub(r"/#\d+", "", strip_spans(s))


FN = {}
# calls whose result depends on a type argument
TYPED_CALLS = {"core::any::TypeId::of": "type ", "erased_serde::de::deserialize": "as ", "serde::de::Deserialize::deserialize": "as ",
               "protocol::round::EntryPoint::entry_round_id": "of "}


_fnv = {}


def fnval(fn):
    r = _fnv.get(id(fn))
    if r is not None and r[0] is fn:
        return r[1]
    t = fnval_(fn)
    _fnv[id(fn)] = (fn, t)
    return t


def fnval_(fn):
    k = fn.get("key") or ""
    t = T_("fn", fname(fn), k or json.dumps(strip_spans(json.dumps(fn.get("rargs") or fn.get("args")))), fn.get("conv") and strip_spans(json.dumps(fn["conv"], sort_keys=True)))
    FN[t] = fn
    return t


_fnc = {}


def fname(fn):
    """display name: Trait::method for trait methods, normalised path otherwise"""
    if fn.get("trait"):
        return norm(fn["trait"]) + "::" + fn["name"]
    return norm(fn.get("rdef") or fn["def"])


def binop(op, a, b):
    if op == "Eq":
        return eq(a, b)
    if op == "Ne":
        return bnot(eq(a, b))
    if op == "BitAnd" and (a.op in BOOLISH and b.op in BOOLISH):
        return band(a, b)
    if op == "BitOr" and (a.op in BOOLISH and b.op in BOOLISH):
        return bor(a, b)
    if a.op == "int" and b.op == "int":
        x, y = a.a[0], b.a[0]
        if op == "Lt":
            return BOOL(x < y)
        if op == "Le":
            return BOOL(x <= y)
        if op == "Gt":
            return BOOL(x > y)
        if op == "Ge":
            return BOOL(x >= y)
        if op in ("AddWithOverflow",):
            return tup([INT(x + y), FALSE])
        if op in ("SubWithOverflow",):
            return tup([INT(x - y), BOOL(x < y)])
        if op == "Add":
            return INT(x + y)
        if op == "Sub" and x >= y:
            return INT(x - y)
    # emptiness through lengths
    if op in ("Lt", "Gt", "Le", "Ge"):
        if op in ("Gt", "Ge"):
            a, b = b, a
            op = "Lt" if op == "Gt" else "Le"
        # now a < b or a <= b
        if op == "Lt" and a.op == "bin" and a.a[0] == "Rem" and a.a[2] is b:
            return TRUE
        if op == "Lt" and a.op == "int" and a.a[0] == 0 and b.op == "len":
            return bnot(empty(b.a[0]))
        if op == "Le" and a.op == "int" and a.a[0] == 1 and b.op == "len":
            return bnot(empty(b.a[0]))
        if op == "Lt" and b.op == "int" and b.a[0] == 1 and a.op == "len":
            return empty(a.a[0])
        if op == "Le" and b.op == "int" and b.a[0] == 0 and a.op == "len":
            return empty(a.a[0])
        if op == "Le":
            return bnot(T_("lt", b, a))
        return T_("lt", a, b)
    if op == "AddWithOverflow":
        for l, c in ((a, b), (b, a)):
            if l.op == "len" and c.op == "int" and isinstance(c.a[0], int) and 0 <= c.a[0] < 65536:
                return tup([T_("add", a, b), FALSE])  # no collection has more than isize::MAX elements
        return tup([T_("add", a, b), T_("ovf", "add", a, b)])
    if op == "SubWithOverflow":
        return tup([T_("sub", a, b), T_("lt", a, b)])
    if op == "MulWithOverflow":
        return tup([T_("mul", a, b), T_("ovf", "mul", a, b)])
    return T_("bin", op, a, b)


def idx(v, i):
    return v.a[2] if v.op == "setidx" and v.a[1] is i else T_("idx", v, i)


BOOLISH = ("bool", "not", "and", "has", "eq", "isempty", "isvar", "lt", "app", "fld", "mu", "fold", "sym", "get")


class Congruence:
    """congruence closure over a set of equations"""

    def __init__(self, eqs, extra=()):
        self.p = {}
        self.terms = set()
        for a, b in eqs:
            self.add(a)
            self.add(b)
        for t in extra:
            self.add(t)
        self.eqs = eqs
        for a, b in eqs:
            self.union(a, b)
        self.close()

    def add(self, t):
        for x in subterms(t):
            if x not in self.terms:
                self.terms.add(x)
                self.p[x] = x

    def find(self, x):
        while self.p[x] is not x:
            self.p[x] = self.p[self.p[x]]
            x = self.p[x]
        return x

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a is b:
            return
        # prefer smaller (older) representative
        if a.n > b.n:
            a, b = b, a
        self.p[b] = a

    def sig(self, t):
        find = self.find

        def m(x):
            return tuple([find(y).n if isinstance(y, T) else m(y) if isinstance(y, tuple) else y for y in x])

        return (t.op, m(t.a))

    def close(self):
        ch = True
        while ch:
            ch = False
            sigs = {}
            for t in list(self.terms):
                if not t.a:
                    continue
                s = self.sig(t)
                o = sigs.get(s)
                if o is None:
                    sigs[s] = t
                elif self.find(o) is not self.find(t):
                    self.union(o, t)
                    ch = True
            # projections of aggregates in the class
            aggs = {}
            for u in self.terms:
                if u.op in ("adt", "tup", "opt", "with"):
                    aggs.setdefault(self.find(u), []).append(u)
            for t in list(self.terms):
                if t.op == "fld" and aggs:
                    base = t.a[0]
                    for u in aggs.get(self.find(base), ()):
                        if u is not base and self.find(u) is self.find(base):
                            v = fld(u, t.a[1], t.a[2])
                            if v.op == "fld" and v.a[0] is u:
                                continue
                            self.add(v)
                            if self.find(v) is not self.find(t):
                                self.union(v, t)
                                ch = True
            # equal aggregates have equal fields
            cls = {}
            for t in list(self.terms):
                if t.op == "adt":
                    r = (self.find(t), t.a[0], t.a[1])
                    o = cls.setdefault(r, t)
                    if o is not t:
                        for x, y in zip(o.a[3], t.a[3]):
                            if self.find(x) is not self.find(y):
                                self.union(x, y)
                                ch = True

    def same(self, a, b):
        if a is b:
            return True
        n = len(self.terms)
        self.add(a)
        self.add(b)
        if len(self.terms) != n:
            self.close()
        return self.find(a) is self.find(b)
