"""Framework shared by the property rules: exit summaries, obligations, reports."""
import os, sys, json, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "engine"))
sys.setrecursionlimit(20000)
from terms import *  # noqa
import interp
from interp import Program, Interp, Congruence, EngineError, norm, fmt_facts, canon_seq, mk_fold  # noqa

VERIFY = "signature::verifier::DigestVerifier::verify_digest"
DESER = "serde::de::Deserialize::deserialize"
WF_DESER = "session::wire_format::WireFormat::deserializer"
WF_SER = "session::wire_format::WireFormat::serialize"
SIGN = "signature::signer::RandomizedDigestSigner::try_sign_digest_with_rng"
DYN = "protocol::dyn_round::DynRound::"

SESSION = "session::session::Session::"


def F(t, path, variant=None):
    """field path of a struct valued term"""
    for n in path.split("."):
        t = fld(t, variant, n)
        variant = None
    return t


def okv(t):
    return fld(t, "Ok", "0")


def errv(t):
    return fld(t, "Err", "0")


def somev(t):
    return fld(t, "Some", "0")


class X:
    """One exit of an analysed function: a path with its facts, value and final state."""

    def __init__(self, I, o, root):
        self.I, self.o, self.root = I, o, root
        self.st, self.val, self.kind, self.info = o.st, o.val, o.kind, o.info
        self.facts = o.st.facts
        self._cg = None
        self._memo = {}

    def cg(self):
        if self._cg is None:
            eqs = [k.a for k, v in self.facts.items() if v is True and isinstance(k, T) and k.op == "eq"]
            self._cg = Congruence(eqs)
        return self._cg

    def same(self, a, b):
        if a is b:
            return True
        r = self.cg().same(a, b)
        return r

    def dec(self, t):
        return self.I.decide(self.st, t)

    def yes(self, t):
        return self.dec(t) is True

    def no(self, t):
        return self.dec(t) is False

    def has(self, m, k):
        """three valued membership, looking through unions and provable equalities of keys"""
        r = self.dec(has(m, k))
        if r is not None:
            return r
        atoms = members(m)
        if atoms is not None and len(atoms) > 1:
            rs = [self._atom(a, k) for a in atoms]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
        for f, v in list(self.facts.items()):
            if isinstance(f, T) and f.op == "has" and self.same(f.a[1], k):
                if f.a[0] is m:
                    return v
                at = members(f.a[0])
                if at is None:
                    continue
                mine = members(m)
                if mine is None:
                    mine = frozenset([("set", m)])
                if v is False and mine <= at:
                    return False
                if v is True and at <= mine:
                    return True
                if v is False and len(at) > 1:
                    pass
        return None

    def _atom(self, a, k):
        if a[0] == "elem":
            r = self.dec(eq(a[1], k))
            if r is None and self.same(a[1], k):
                return True
            return r
        return self.has(a[1], k) if members(a[1]) == frozenset([a]) else None

    def post(self, n):
        return self.st.env.get(("arg", n), sym("arg%d" % n))

    def isret(self):
        return self.kind == "ret"

    @property
    def res(self):
        """what is returned; the call itself if its result is taken apart and put together again"""
        v = self.val
        if self.kind != "ret" or v is None or v.op != "adt" or v.a[0] != RESULT:
            return v
        o = v.a[3][0]
        if v.a[1] == "Ok" and o.op == "tup" and o.a[0] and all(u.op == "fld" and u.a[0] is o.a[0][0].a[0] and u.a[1] is None and u.a[2] == str(i) for i, u in enumerate(o.a[0])):
            o = o.a[0][0].a[0]
        if o.op == "fld" and o.a[1] == v.a[1] and o.a[0].op == "app":
            return o.a[0]
        if v.a[1] == "Ok" and o is UNIT:
            for e in reversed(self.st.events()):
                if e.kind == "call" and isinstance(e.ret, T) and self.yes(isvar(e.ret, "Ok")):
                    return e.ret
        return v

    def ok(self):
        """payload of Ok(..), else None"""
        return self._res("Ok")

    def err(self):
        return self._res("Err")

    def _res(self, variant):
        v = self.val
        if self.kind != "ret" or v is None:
            return None
        if v.op == "adt":
            return v.a[3][0] if v.a[0] == RESULT and v.a[1] == variant else None
        k = ("res", v)
        if k not in self._memo:
            d = self.dec(isvar(v, "Ok")) if v.op in ("app", "fld", "get") else None
            self._memo[k] = "Ok" if d is True else "Err" if d is False and self.failed_result(v) else None
        return fld(v, variant, "0") if self._memo[k] == variant else None

    def failed_result(self, v):
        """the path has tested this value as a Result"""
        return any(isinstance(f, T) and f.op == "isvar" and f.a[0] is v and f.a[1] in ("Ok", "Err") for f in self.facts)

    def where(self):
        t = self.st.trail()
        return t[-1] if t else "?"

    def describe(self):
        r = ["  exit of %s: %s" % (self.root, self.kind)]
        if self.info:
            r.append("  info: %s" % (self.info,))
        if self.val is not None:
            r.append("  returns: %s" % clip(pretty(self.val), 2500))
        tr = self.st.trail()
        r.append("  branch points on the path: %s" % " -> ".join(tr[-40:]))
        for k, v in self.facts.items():
            if isinstance(k, T):
                r.append("    [%s] %s" % ("T" if v is True else "F", clip(pretty(k), 300)))
            else:
                r.append("    [for all elements of %s: one of %d alternatives]" % (clip(pretty(k[1]), 120), len(v)))
        return "\n".join(r)


def clip(s, n):
    return s if len(s) <= n else s[:n] + "..."


def isadt(t, name, variant=None):
    return t is not None and t.op == "adt" and t.a[0].split("::")[-1] == name and (variant is None or t.a[1] == variant)


def isapp(t, suffix):
    return t is not None and t.op == "app" and (t.a[0] == suffix or t.a[0].endswith("::" + suffix))


def members(s):
    """the set as a union of atomic sets and single elements: frozenset of ('set', t)/('elem', t); None if unknown"""
    if s.op == "empty":
        return frozenset()
    if s.op == "ins":
        m = members(s.a[0])
        return None if m is None else m | {("elem", s.a[1])}
    if s.op == "arr":
        return frozenset(("elem", x) for x in s.a[0])
    if s.op == "rem":
        return None
    if s.op == "fold":
        seq, init, parts = s.a[0], s.a[1], s.a[2]
        m0 = members(init)
        if m0 is None or len(parts) != 1 or parts[0][0]:
            return None
        v = parts[0][1]
        src = seq_members(seq)
        if src is None:
            return None
        if v.op in ("ins", "push") and v.a[0].op == "acc" and v.a[1].op in ("ekey", "elem", "el"):
            return m0 | src
        return None
    return frozenset([("set", s)])


def seq_members(q):
    if q.op == "seq" and q.a[1] in ("set", "keys", "vec", "map"):
        return members(q.a[0])
    if q.op == "chain":
        r = frozenset()
        for x in q.a:
            if isinstance(x, T):
                m = seq_members(x)
                if m is None:
                    return None
                r |= m
        return r
    return None


# ------------------------------------------------------------------------
class Ob:
    __slots__ = ("rule", "inst", "ok", "where", "detail")

    def __init__(self, rule, inst, ok, where, detail):
        self.rule, self.inst, self.ok, self.where, self.detail = rule, inst, ok, where, detail


class Suite:
    """one run: the program facts, summaries and obligations of one property"""

    def __init__(self, prog, pid):
        self.prog, self.pid = prog, pid
        self.obs = []
        self.summ = {}
        self.functions = set()
        self.callsites = set()
        self.nexits = 0
        self.roots = []
        self.notes = []
        self.assume = []
        self.fnix = {}
        for f in prog.ix["fns"]:
            self.fnix.setdefault(norm(f["def"]), []).append(f)

    # ---- summaries
    def root(self, pat):
        return self.prog.find_root(pat)

    def span(self, rootpat):
        f = self.fnix.get(rootpat)
        return f[0]["span"] if f else "?"

    def run(self, pat, opaque=None, erase=True, key=None):
        k = (pat, key, erase)
        if k in self.summ:
            return self.summ[k]
        rk = self.root(pat)
        I = Interp(self.prog, rk, opaque=opaque, erase=erase)
        outs = I.run()
        xs = [X(I, o, pat) for o in outs]
        if not xs:
            raise EngineError("no exits found for %s" % pat)
        self.summ[k] = xs
        self.functions |= I.functions
        self.callsites |= I.callsites
        self.nexits += len(xs)
        self.roots.append((pat, len(xs)))
        return xs

    def interp(self, pat, opaque=None, erase=True):
        self.run(pat, opaque, erase)
        return self.summ[(pat, None, erase)][0].I

    # ---- obligations
    def ob(self, rule, inst, ok, where="", detail=""):
        if callable(detail):
            detail = detail() if not ok else ""
        self.obs.append(Ob(rule, inst, bool(ok), where, detail))
        return ok

    def need(self, rule, inst, count, floor, exact=False):
        """fail closed: a rule that matched far fewer instances than confirmed by hand (the number of paths depends on how
        the code is written), or not all of the kinds which there are"""
        floor = floor if exact else max(1, floor // 5)
        self.ob(rule + ".floor", inst, count >= floor, "", "%d instance(s) found, at least %d expected" % (count, floor))

    def xob(self, rule, inst, ok, x, msg=""):
        return self.ob(rule, inst, ok, x.where(), lambda: (msg + "\n" if msg else "") + x.describe())


    def borrow(self, pid, pred):
        """obligations of another property's analysis which this property needs as well"""
        o = Suite(self.prog, self.pid)
        CHECKS[pid](o)
        got = [b for b in o.obs if pred(b)]
        self.obs += got
        self.functions |= o.functions
        self.callsites |= o.callsites
        self.nexits += o.nexits
        self.roots += o.roots
        return got


CHECKS = {}


def check(pid, technique=None):
    def d(f):
        CHECKS[pid] = f
        return f

    return d


def under(x, conds):
    """x's knowledge extended by a list of literals; None if contradictory"""
    st = x.st.fork()
    for t, b in conds:
        if isinstance(t, T) and not x.I.assume(st, t, b):
            return None
    o = interp.Out(x.kind, st, x.val, x.info)
    return X(x.I, o, x.root)


def elements(x, t, depth=0):
    """elements of a collection built by loops: (base sequence, [(knowledge X, value)], [knowledge X of skipped])"""
    if t.op == "fold" and t.a[1].op == "empty":
        push, skip = [], []
        for c, v in t.a[2]:
            y = under(x, c)
            if y is None:
                continue
            if v.op == "acc":
                skip.append(y)
            elif v.op in ("push", "ins") and v.a[0].op == "acc":
                push.append((y, v.a[1]))
            else:
                return None
        return t.a[0], push, skip
    return None


def foralls(x):
    """[(sequence, [alternatives])] of the universally quantified facts of an exit; an alternative is a list of literals"""
    r = []
    for k, v in x.facts.items():
        if isinstance(k, tuple) and k[0] == "forall":
            alts = [[]]
            for disj in v:
                if len(alts) * len(disj) > 512:
                    continue
                alts = [a + list(c) for a in alts for c in disj]
            r.append((k[1], alts))
    return r


def base_sets(seq):
    """the underlying set/map of a plain traversal"""
    if seq.op == "seq":
        return seq.a[0]
    return None


def ekey0(s):
    return T_("ekey", s, 0)


def witnesses(x):
    """element terms about which the path knows something"""
    r = []
    for k in x.facts:
        if isinstance(k, T):
            for t in subterms(k):
                if t.op in ("ekey", "elem") and t not in r:
                    r.append(t)
    return r


def impl_fn(S, ty, trait, method):
    """normalised name of a trait method implementation, found by the names of the type, the trait and the method"""
    r = set()
    for n in S.fnix:
        if not n.endswith(">::" + method):
            continue
        i = n.find("<impl ")
        if i >= 0 and n[:i].count("<") == 0:
            a, b = n[i + 6:n.rindex(">::")].rsplit(" for ", 1)
            if a.split("<")[0].split("::")[-1] == trait and b.split("<")[0].split("::")[-1] == ty:
                r.add(n)
            continue
        if not n.startswith("<"):
            continue
        body = n[1:n.rindex(">::")]
        d, cut = 0, None
        for i in range(len(body)):
            if body[i] == "<":
                d += 1
            elif body[i] == ">":
                d -= 1
            elif d == 0 and body.startswith(" as ", i):
                cut = i
                break
        if cut is None:
            continue
        a = body[:cut].split("<")[0].split("::")[-1]
        b = body[cut + 4:].split("<")[0].split("::")[-1]
        if a == ty and b == trait:
            r.add(n)
    if len(r) != 1:
        raise EngineError("implementation of %s::%s for %s: %d found" % (trait, method, ty, len(r)))
    return r.pop()


def quantified(x, M):
    """what the path knows about every element of the set / map M: a list of alternatives (lists of literals over the
    canonical element ekey0(M)) per loop that has visited all of M"""
    k0 = ekey0(M)
    res = []
    for seq, alts in foralls(x):
        src = base_sets(seq)
        if src is None:
            continue
        extra = []
        if src.op == "rem" and members(src.a[0]) == frozenset([("set", M)]):
            extra = [[(eq(k0, src.a[1]), True)]]
        elif members(src) != frozenset([("set", M)]):
            continue
        k = ekey0(src)
        out = list(extra)
        for alt in alts:
            lits = [(subst(t, {k: k0}) if k is not k0 else t, b) for t, b in alt]
            if extra:
                lits = [(eq(k0, src.a[1]), False)] + lits
            out.append(lits)
        res.append(out)
    return res


def forall_states(x, M):
    """the possible states of a generic element of M on this path"""
    ys = [under(x, [(has(M, ekey0(M)), True)])]
    ys = [y for y in ys if y is not None]
    for alts in quantified(x, M):
        nxt = []
        for y in ys:
            for a in alts:
                z = under(y, a)
                if z is not None:
                    nxt.append(z)
        ys = nxt
        if len(ys) > 400:
            raise EngineError("too many alternatives for the elements of %s" % clip(pretty(M), 80))
    return ys


def entries(x, t):
    """a map built by one loop: (source collection, [(knowledge, key, value)], [knowledge of skipped]); None if unknown"""
    if t.op == "adt" and len(t.a[3]) == 1:
        return entries(x, t.a[3][0])
    if t.op != "fold" or t.a[1].op != "empty" or t.a[0].op != "seq":
        return None
    ins_, skip = [], []
    for c, v in t.a[2]:
        y = under(x, c)
        if y is None:
            continue
        if v.op == "acc":
            skip.append(y)
        elif v.op == "ins" and v.a[0].op == "acc":
            ins_.append((y, v.a[1], v.a[2]))
        else:
            return None
    return t.a[0].a[0], ins_, skip


def without(M):
    """(map, removed keys)"""
    ks = []
    while M.op == "rem":
        ks.append(M.a[1])
        M = M.a[0]
    return M, ks
