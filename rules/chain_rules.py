"""C18: the chained protocol forwards everything to its active part, nested under that part's group."""
from lib import *
from session_rules import *
from echo_rules import find_adt
from transition_rules import atoms, is_rid, under_group

DYN = "protocol::dyn_round::DynRound::"
DRI = "protocol::round_info::DynRoundInfo::"
EP = "protocol::round::EntryPoint::"
METHODS = {"communication_info": (), "make_direct_message": (2, 3, 4), "make_echo_broadcast": (2, 3), "make_normal_broadcast": (2, 3),
           "receive_message": (2, 3, 4), "transition_info": (), "finalize": (2, 3, 4)}


def path_to(t, want):
    """how `want` is reached inside the constructed value t: [(variant, field)]"""
    if t is want:
        return ()
    if t.op == "adt":
        for n, v in zip(t.a[2], t.a[3]):
            p = path_to(v, want)
            if p is not None:
                return ((None if t.a[1] in (None, t.a[0].split('::')[-1]) else t.a[1], n),) + p
    return None


def walk(t, path):
    for v, n in path:
        t = fld(t, v, n)
    return t


def at_path(x, path, base=A1):
    """whether the value has the variants the path goes through (three valued)"""
    r = True
    for v, n in path:
        if v is not None:
            d = x.dec(isvar(base, v))
            if d is False:
                return False
            if d is None:
                r = None
        base = fld(base, v, n)
    return r


def arg_is(x, a, i):
    """argument i (possibly a reborrowed reference to it) handed on"""
    return a is sym("arg%d" % i) or a.op == "mref" and a.a[0] is sym("arg%d" % i)


def rng_from(a, i=2):
    return a.op == "mref" and any(t is sym("arg%d" % i) for t in subterms(a))


def calls(x, suffix):
    return [e for e in x.st.events() if e.kind == "call" and e.name.endswith(suffix)]


class Chain:
    """where the two parts live in the combinator's round object, found from how it is built"""

    def __init__(self, S):
        self.S = S
        self.first = self.second = None
        self.shared = self.ident = self.join = None
        mk = impl_fn(S, "T", "EntryPoint", "make_round")
        n = 0
        for x in S.run(mk):
            v = x.ok()
            if v is None:
                S.xob("starts-with-first", "fails only as the first part does", x.kind == "ret" and x.err() is not None and
                      x.err().op == "fld" and isapp(x.err().a[0], EP + "make_round"), x)
                continue
            n += 1
            r = find_adt(v, "ChainedRound")
            inner = [t for t in subterms(v) if t.op == "fld" and t.a[1] == "Ok" and isapp(t.a[0], EP + "make_round")]
            if not S.xob("starts-with-first", "first part", r is not None and len(set(inner)) == 1, x, clip(pretty(v), 300)):
                continue
            a = inner[0].a[0].a[1]
            sp = [t for t in subterms(a[0]) if isapp(t, "ChainedSplit::make_entry_point1")]
            S.xob("starts-with-first", "entry point of the first part", len(sp) == 1 and a[0] is fld(sp[0], None, "0") and sp[0].a[1][0] is A1, x)
            S.xob("starts-with-first", "generator", rng_from(a[1]), x)
            S.xob("starts-with-first", "shared randomness", a[2] is A3, x)
            S.xob("starts-with-first", "party", a[3] is A4, x)
            self.first = path_to(r, inner[0])
            self.shared, self.ident = path_to(r, A3), path_to(r, A4)
            self.join = path_to(r, fld(sp[0], None, "1")) if sp else None
            for k, p in (("first part", self.first), ("shared randomness", self.shared), ("party", self.ident), ("transition", self.join)):
                S.xob("starts-with-first", k + " kept", p is not None, x, "not found in the round object: " + clip(pretty(r), 300))
        S.need("starts-with-first", "exits", n, 1)
        for x in S.run(self.fn("finalize")):
            for t in subterms(x.val) if x.val is not None else ():
                if isadt(t, "ChainedRound"):
                    ms = [u for u in subterms(t) if u.op == "fld" and u.a[1] == "Ok" and isapp(u.a[0], EP + "make_round")]
                    if ms and self.second is None:
                        self.second = path_to(t, ms[0])
        S.ob("second-after-first", "round object of the second part", self.second is not None, self.fn("finalize"),
             "no exit of finalize() starts the second part")
        if self.first is None or self.second is None:
            raise EngineError("the parts of the chained round were not found")

    def fn(self, m):
        return impl_fn(self.S, "ChainedRound", "DynRound", m)

    def part(self, x):
        """1 / 2: the active part on this exit"""
        a, b = at_path(x, self.first), at_path(x, self.second)
        if a is True and b is not True:
            return 1
        if b is True and a is not True:
            return 2
        return None

    def obj(self, k):
        return walk(A1, self.first if k == 1 else self.second)


def const_int(t):
    return t.a[0] if t.op == "int" else None


def group_of(t):
    """the constant group an identifier is nested under"""
    g = F(t, "groups")
    return g.a[1] if g.op == "push" and g.a[1].op == "int" else None


@check("C18")
def c18(S):
    C = Chain(S)
    groups = {}
    n = {}
    # ---- transition info, also fixing each part's group
    for x in S.run(C.fn("transition_info")):
        k = C.part(x)
        if not S.xob("nested-identifiers", "active part", k is not None and x.kind == "ret", x):
            continue
        inner = [t for t in subterms(x.val) if isapp(t, DYN + "transition_info")]
        if not S.xob("nested-identifiers", "part %d" % k, len(set(inner)) == 1 and inner[0].a[1][0] is C.obj(k), x):
            continue
        ti, v = inner[0], x.val
        g = group_of(F(v, "id"))
        if not S.xob("nested-identifiers", "group of part %d" % k, g is not None and groups.setdefault(k, g) is g, x, clip(pretty(F(v, "id")), 300)):
            continue
        S.xob("nested-identifiers", "id %d" % k, under_group(x, F(v, "id"), F(ti, "id"), g), x, clip(pretty(F(v, "id")), 300))
        last = x.dec(F(ti, "may_produce_result"))
        n["ti", k, last if k == 1 else None] = 1
        for f in ("parents", "siblings", "children"):
            a, src = atoms(F(v, f)), F(ti, f)
            if not S.xob("nested-identifiers", "%s %d" % (f, k), a is not None and any(
                    q[0] == "map" and q[1] is src and under_group(x, q[2], ekey0(src), g) for q in a), x, clip(pretty(F(v, f)), 400)):
                continue
            rest = [q for q in a if not (q[0] == "map" and q[1] is src)]
            if k == 1 and f == "children" and last is not False:
                ok = last is True and len(rest) == 1 and rest[0][0] == "elem" and entry_of_second(x, rest[0][1])
                S.xob("nested-identifiers", "second part follows the last round of the first", ok, x, clip(pretty(F(v, f)), 400))
                if ok:
                    g2 = group_of(rest[0][1])
                    S.xob("nested-identifiers", "group of the second part", groups.setdefault(2, g2) is g2, x)
            else:
                S.xob("nested-identifiers", "nothing else in %s %d" % (f, k), not rest, x, clip(pretty(F(v, f)), 400))
        r = F(v, "may_produce_result")
        S.xob("nested-identifiers", "result %d" % k, (r is FALSE or x.no(r)) if k == 1 else r is F(ti, "may_produce_result"), x, clip(pretty(r), 200))
    for i in (("ti", 1, True), ("ti", 1, False), ("ti", 2, None)):
        S.need("nested-identifiers", "transition info %s" % (i,), n.get(i, 0), 1)
    S.ob("nested-identifiers", "groups differ", len(groups) == 2 and groups[1] is not groups[2], "", "%s" % groups)
    for x in S.run(impl_fn(S, "T", "EntryPoint", "entry_round_id")):
        v = x.val
        e = [t for t in subterms(v) if isapp(t, EP + "entry_round_id")]
        S.xob("nested-identifiers", "entry round", x.kind == "ret" and len(set(e)) == 1 and type_arg(e[0]).endswith("ChainedSplit<Id>>::EntryPoint") and
              group_of(v) is groups.get(1) and under_group(x, v, e[0], groups.get(1)), x, clip(pretty(v), 300))
    # ---- forwarding
    for m, args in METHODS.items():
        if m in ("transition_info", "finalize"):
            continue
        for x in S.run(C.fn(m)):
            k = C.part(x)
            cs = calls(x, DYN + m)
            ok = k is not None and x.kind == "ret" and len(cs) == 1 and cs[0].args[0] is C.obj(k) and \
                all(arg_is(x, cs[0].args[i + 1], j) for i, j in enumerate(args))
            if not S.xob("forwarded", m, ok, x, "not answered by the active part with the same arguments"):
                continue
            n[m, k] = n.get((m, k), 0) + 1
            c = cs[0].ret
            if m != "receive_message":
                S.xob("forwarded", m + " answer", x.res is c, x, clip(pretty(x.val), 300))
                continue
            if x.yes(isvar(c, "Ok")):
                S.xob("forwarded", m + " payload", x.ok() is okv(c), x)
                continue
            e = x.err()
            S.xob("forwarded", m + " error", e is not None and x.no(isvar(c, "Ok")) and error_nested(x, e, errv(c), groups.get(k)), x, clip(pretty(x.val), 600))
            if x.yes(isvar(errv(c), "Protocol")):
                n["nested", k] = n.get(("nested", k), 0) + 1
        for k in (1, 2):
            S.need("forwarded", "%s of part %d" % (m, k), n.get((m, k), 0), 1)
    for k in (1, 2):
        S.need("forwarded", "protocol errors of part %d" % k, n.get(("nested", k), 0), 1)
    finalize(S, C, n)
    evidence(S, groups, n)


def type_arg(t):
    return t.a[1][-1].a[0] if t.a[1] and t.a[1][-1].op == "str" else ""


def entry_of_second(x, t):
    e = [u for u in subterms(t) if isapp(u, EP + "entry_round_id")]
    g = group_of(t)
    return g is not None and len(set(e)) == 1 and under_group(x, t, e[0], g) and type_arg(e[0]).split("<")[-1] and "ChainedJoin" in type_arg(e[0])


def error_nested(x, e, src, g):
    """the error is the part's own, except that identifiers in its message requirements are nested"""
    d = x.dec(isvar(src, "Protocol"))
    if e is src:
        return d is False
    if d is not True or not (e.op == "adt" and e.a[1] == "Protocol"):
        return False
    p, q = fld(e, "Protocol", "0"), fld(src, "Protocol", "0")
    if F(p, "error") is not F(q, "error"):
        return False
    a, b = F(p, "required_messages"), F(q, "required_messages")
    if F(a, "this_round") is not F(b, "this_round"):
        return False
    return opt_nested(x, F(a, "previous_rounds"), F(b, "previous_rounds"), g, True) and opt_nested(x, F(a, "combined_echos"), F(b, "combined_echos"), g, False)


def opt_nested(x, v, src, g, ismap):
    some = x.dec(isvar(src, "Some"))
    if some is False:
        return v is src or v.op == "adt" and v.a[1] == "None"
    if some is None or not (v.op == "adt" and v.a[1] == "Some"):
        return False
    return nested_coll(x, somev(v), somev(src), g, ismap, under_group)


def nested_coll(x, v, src, g, ismap, rel):
    if ismap:
        e = entries(x, v)
        if e is None or e[0] is not src or e[2]:
            return False
        k = ekey0(src)
        return all(rel(y, key, k, g) and val is get(src, k) for y, key, val in e[1]) and len(e[1]) > 0
    a = atoms(v)
    return a is not None and len(a) == 1 and all(q[0] == "map" and q[1] is src and rel(x, q[2], ekey0(src), g) for q in a)


def finalize(S, C, n):
    for x in S.run(C.fn("finalize")):
        k = C.part(x)
        fc, mc, jc = calls(x, DYN + "finalize"), calls(x, EP + "make_round"), calls(x, "ChainedJoin::make_entry_point2")
        ok = k is not None and x.kind == "ret" and len(fc) == 1 and fc[0].args[0] is C.obj(k) and \
            all(arg_is(x, fc[0].args[i + 1], j) for i, j in enumerate((2, 3, 4)))
        if not S.xob("second-after-first", "active part finalized with the same arguments", ok, x):
            continue
        c = fc[0].ret
        if x.no(isvar(c, "Ok")):
            S.xob("second-after-first", "error passed on", x.err() is errv(c) and not mc, x)
            n["fin-err", k] = 1
            continue
        if not S.xob("second-after-first", "known outcome", x.yes(isvar(c, "Ok")), x):
            continue
        o = okv(c)
        if x.yes(isvar(o, "AnotherRound")):
            r = find_adt(x.ok(), "ChainedRound") if x.ok() is not None and x.ok().a[1] == "AnotherRound" else None
            p = C.first if k == 1 else C.second
            if S.xob("second-after-first", "part %d goes on" % k, r is not None and path_to(r, fld(o, "AnotherRound", "0")) == p and not mc, x, clip(pretty(x.val), 400)):
                n["fin-next", k] = 1
                if k == 1:
                    for nme, q in (("shared randomness", C.shared), ("party", C.ident), ("transition", C.join)):
                        S.xob("second-after-first", nme + " kept", walk(r, q) is walk(A1, q), x, clip(pretty(walk(r, q)), 200))
            continue
        if not S.xob("second-after-first", "known kind of outcome", x.no(isvar(o, "AnotherRound")), x):
            continue
        res = fld(o, "Result", "0")
        if k == 2:
            n["fin-res", k] = 1
            S.xob("second-after-first", "result", x.ok() is not None and x.ok().op == "adt" and x.ok().a[1] == "Result" and fld(x.ok(), "Result", "0") is res and not mc or x.ok() is o, x)
            continue
        ok = len(mc) == 1 and len(jc) == 1 and jc[0].args[0] is walk(A1, C.join) and jc[0].args[1] is res and mc[0].args[0] is jc[0].ret
        if not S.xob("second-after-first", "second part made from the result", ok, x):
            continue
        a = mc[0].args
        S.xob("second-after-first", "generator", rng_from(a[1]), x)
        S.xob("second-after-first", "same shared randomness", a[2] is walk(A1, C.shared), x, clip(pretty(a[2]), 200))
        S.xob("second-after-first", "same party", a[3] is walk(A1, C.ident), x, clip(pretty(a[3]), 200))
        if x.ok() is not None:
            n["fin-res", k] = 1
            r = find_adt(x.ok(), "ChainedRound") if x.ok().a[1] == "AnotherRound" else None
            S.xob("second-after-first", "second part becomes active", r is not None and path_to(r, okv(mc[0].ret)) == C.second, x)
        else:
            S.xob("second-after-first", "error passed on", x.err() is errv(mc[0].ret), x)
    for k in (1, 2):
        for i in ("fin-err", "fin-next", "fin-res"):
            S.need("second-after-first", "%s of part %d" % (i, k), n.get((i, k), 0), 1)


def without_group(x, t, src, g):
    """t is src with its outermost group removed, which is known to be g"""
    return is_rid(x, t, F(src, "round"), F(t, "groups"), F(src, "is_echo")) and F(t, "groups") is T_("popped", F(src, "groups")) and in_group(x, src, g) is True


def in_group(x, rid, g):
    e = x.dec(T_("isempty", F(rid, "groups")))
    if e is not False:
        return False if e is True else None
    return x.dec(eq(T_("last", F(rid, "groups")), g))


def evidence(S, groups, n):
    # the lookup decides which metadata object serves which group
    served = {}
    for x in S.run(impl_fn(S, "C", "Protocol", "round_info")):
        v = x.val
        inner = [k.a[0] for k in x.facts if isinstance(k, T) and k.op == "isvar" and isapp(k.a[0], "Protocol::round_info")]
        g = [k for k in (1, 2) if groups.get(k) is not None and in_group(x, A1, groups[k]) is True]
        if x.kind == "ret" and v.op == "adt" and v.a[1] == "Some":
            ok = len(g) == 1 and len(inner) == 1 and x.yes(isvar(inner[0], "Some")) and without_group(x, inner[0].a[1][0], A1, groups[g[0]])
            if not S.xob("routed-lookup", "found", ok, x, clip(pretty(v), 300)):
                continue
            o = somev(v)
            while o.op == "adt" and len(o.a[3]) == 1 and o.a[3][0] is not somev(inner[0]):
                o = o.a[3][0]
            if S.xob("routed-lookup", "metadata of the part", o.op == "adt" and o.a[3][0] is somev(inner[0]), x, clip(pretty(v), 300)):
                served.setdefault(g[0], set()).add(o.a[0])
        else:
            ok = x.kind == "ret" and v.op == "adt" and v.a[1] == "None"
            if g:
                ok = ok and len(inner) == 1 and x.no(isvar(inner[0], "Some")) and without_group(x, inner[0].a[1][0], A1, groups[g[0]])
            else:
                ok = ok and all(in_group(x, A1, groups.get(k, FALSE)) is False for k in (1, 2))
                n["reject"] = 1
            S.xob("routed-lookup", "not found", ok, x)
    S.need("routed-lookup", "rejection", n.get("reject", 0), 1)
    ty = {}
    for k in (1, 2):
        if S.ob("routed-lookup", "part %d" % k, len(served.get(k, ())) == 1, "", "no single metadata type serves part %d: %s" % (k, served.get(k))):
            ty[k] = next(iter(served[k])).split("<")[0].split("::")[-1]
    S.ob("routed-lookup", "distinct", len(set(ty.values())) == 2, "", "both parts are served by one metadata type")
    data = field_of_part(S)
    for k, t in ty.items():
        for m in ("verify_direct_message_is_invalid", "verify_echo_broadcast_is_invalid", "verify_normal_broadcast_is_invalid"):
            for x in S.run(impl_fn(S, t, "DynRoundInfo", m)):
                c = calls(x, DRI + m)
                ok = x.kind == "ret" and len(c) == 1 and x.res is c[0].ret and part_of(c[0].args[0]) and c[0].args[1] is A2 and c[0].args[2] is A3
                S.xob("routed-evidence", "%s %d" % (m, k), ok, x)
        got = 0
        a7, a8, a9, a10 = (sym("arg%d" % i) for i in (7, 8, 9, 10))
        g = groups[k]
        for x in S.run(impl_fn(S, t, "DynRoundInfo", "verify_evidence")):
            c = calls(x, DRI + "verify_evidence")
            if not c:
                e = x.err()
                why = in_group(x, A2, g) is False
                for w in witnesses(x):
                    if w.op == "ekey" and w.a[0] in (a9, a10) and x.has(w.a[0], w) is True and in_group(x, w, g) is False:
                        why = True
                S.xob("routed-evidence", "refused only for a wrong group %d" % k, e is not None and e.op == "adt" and e.a[1] == "InvalidEvidence" and why, x)
                continue
            got += 1
            a = c[0].args
            ok = x.kind == "ret" and len(c) == 1 and x.res is c[0].ret and part_of(a[0])
            S.xob("routed-evidence", "verified by part %d" % k, ok, x)
            S.xob("routed-evidence", "round %d" % k, without_group(x, a[1], A2, g), x, clip(pretty(a[1]), 300))
            for nme, i, want in (("format", 2, A3), ("error", 3, A4), ("guilty party", 4, sym("arg5")), ("shared randomness", 5, sym("arg6")), ("message", 7, a8)):
                S.xob("routed-evidence", "%s %d" % (nme, k), a[i] is want, x, clip(pretty(a[i]), 200))
            S.xob("routed-evidence", "shared data %d" % k, data.get(k) is not None and a[6] is F(a7, data[k]), x, clip(pretty(a[6]), 200))
            for nme, i, src in (("previous messages", 8, a9), ("combined echos", 9, a10)):
                gs = forall_states(x, src)
                S.xob("routed-evidence", "%s %d" % (nme, k), rids_ungrouped(x, a[i], src, g, gs), x, clip(pretty(a[i]), 400))
        S.need("routed-evidence", "verification by part %d" % k, got, 1)


def rids_ungrouped(x, v, src, g, states):
    e = entries(x, v)
    if e is None or e[0] is not src or e[2] or not e[1]:
        return False
    k = ekey0(src)
    if not all(val is get(src, k) and F(key, "groups") is T_("popped", F(k, "groups")) and
               is_rid(y, key, F(k, "round"), F(key, "groups"), F(k, "is_echo")) for y, key, val in e[1]):
        return False
    return bool(states) and all(in_group(y, k, g) is True for y in states)


def part_of(t):
    """the wrapped metadata object of this wrapper"""
    while t.op == "fld":
        t = t.a[0]
    return t is A1


def field_of_part(S):
    """which field of the shared data belongs to which part, by its declared type"""
    r = {}
    for a in S.prog.ix.get("adts", []):
        if a["path"].split("<")[0].split("::")[-1] == "ChainedSharedData":
            for f in a["variants"][0]["fields"]:
                for k in (1, 2):
                    if "::Protocol%d " % k in f[1]:
                        r[k] = f[0]
    return r
