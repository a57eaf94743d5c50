"""C17: the transition graph and the identifiers of rounds."""
from lib import *
from session_rules import *
from echo_rules import ER, find_adt, finalize_calls

RID = "protocol::round_id::RoundId::"
TI = "protocol::round_id::TransitionInfo::"


def atoms(t):
    """a set as a union: ('set', s), ('elem', e) or ('map', source, value over ekey0(source)); None if unknown"""
    if t.op == "empty":
        return frozenset()
    if t.op == "ins":
        m = atoms(t.a[0])
        return None if m is None else m | {("elem", t.a[1])}
    if t.op == "arr":
        return frozenset(("elem", e) for e in t.a[0])
    if t.op == "fold":
        m = atoms(t.a[1])
        q = t.a[0]
        if m is None or q.op != "seq" or q.a[1] not in ("set", "keys", "vec"):
            return None
        src = q.a[0]
        k = ekey0(src)
        for c, v in t.a[2]:
            if c or v.op not in ("ins", "push") or v.a[0].op != "acc":
                return None
            if v.a[1] is k or v.a[1].op in ("elem", "el"):
                s = atoms(src)
                m |= s if s is not None else {("set", src)}
            else:
                m |= {("map", src, v.a[1])}
        return m
    return frozenset([("set", t)])


def rid(round_, groups, echo):
    return round_, groups, echo


def is_rid(x, t, round_, groups, echo):
    g = F(t, "groups")
    return same_value(x, F(t, "round"), round_) and (same_value(x, g, groups) if groups is not None else g.op == "empty" or (g.op == "arr" and not g.a[0])) \
        and (F(t, "is_echo") is echo or x.dec(F(t, "is_echo")) is (echo.a[0] if echo.op == "bool" else None) or same_flag_(x, F(t, "is_echo"), echo))


def same_flag_(x, a, b):
    p, q = (u.a[0] if u.op == "bool" else x.dec(u) for u in (a, b))
    return p is not None and p is q


def plain(x, t, n):
    return is_rid(x, t, n, None, FALSE)


@check("C17")
def c17(S):
    n = {}
    # ---- identifiers
    E = F(A1, "is_echo")
    for name, want_echo in (("echo", TRUE), ("non_echo", FALSE)):
        for x in S.run(RID + name):
            v = x.ok()
            if v is not None:
                n[name] = n.get(name, 0) + 1
                S.xob("identifiers", name + " applies", x.dec(E) is (want_echo is FALSE), x, "derived for an identifier it does not apply to")
                S.xob("identifiers", name, is_rid(x, v, F(A1, "round"), F(A1, "groups"), want_echo), x, clip(pretty(v), 200))
            else:
                S.xob("identifiers", name + " fails only if not applicable", x.kind == "ret" and x.dec(E) is (want_echo is TRUE), x)
        S.need("identifiers", name, n.get(name, 0), 1)
    grouped = None
    for x in S.run(RID + "group_under"):
        v = x.val
        ok = x.kind == "ret" and is_rid(x, v, F(A1, "round"), F(v, "groups"), E) and F(v, "groups") is T_("push", F(A1, "groups"), A2)
        S.xob("identifiers", "group_under", ok, x, clip(pretty(v), 300) if v is not None else "")
    for x in S.run(RID + "split_group"):
        v = x.ok()
        e = x.dec(T_("isempty", F(A1, "groups")))
        if v is not None:
            n["split"] = n.get("split", 0) + 1
            g, r = fld(v, None, "0"), fld(v, None, "1")
            S.xob("identifiers", "split_group applies", e is False, x)
            S.xob("identifiers", "split_group group", g is T_("last", F(A1, "groups")), x, clip(pretty(g), 200))
            S.xob("identifiers", "split_group rest", is_rid(x, r, F(A1, "round"), F(r, "groups"), E) and F(r, "groups") is T_("popped", F(A1, "groups")), x, clip(pretty(r), 200))
        else:
            S.xob("identifiers", "split_group fails only if not nested", x.kind == "ret" and e is True, x)
    S.need("identifiers", "split_group", n.get("split", 0), 1)
    for x in S.run(RID + "new"):
        S.xob("identifiers", "new", x.kind == "ret" and plain(x, x.val, A1), x)
    for x in S.run(RID + "is_echo"):
        S.xob("identifiers", "is_echo", same_flag_(x, x.val, E) or x.val is E, x)
    for x in S.run(RID + "round_num"):
        S.xob("identifiers", "round_num", x.val is F(A1, "round"), x)
    identity_of_ids(S)
    # ---- transition infos
    for x in S.run(TI + "group_under"):
        v = x.val
        S.xob("transition-info", "group_under id", x.kind == "ret" and under_group(x, F(v, "id"), F(A1, "id"), A2), x)
        for f in ("parents", "siblings", "children"):
            a = atoms(F(v, f))
            src = F(A1, f)
            ok = a is not None and len(a) == 1 and all(q[0] == "map" and q[1] is src and under_group(x, q[2], ekey0(src), A2) for q in a)
            S.xob("transition-info", "group_under " + f, ok, x, clip(pretty(F(v, f)), 300))
        S.xob("transition-info", "group_under result", same_flag_(x, F(v, "may_produce_result"), F(A1, "may_produce_result")) or F(v, "may_produce_result") is F(A1, "may_produce_result"), x)
    for x in S.run(TI + "echo"):
        v = x.ok()
        if v is None:
            S.xob("transition-info", "echo fails only if not applicable", x.dec(F(A1, "id.is_echo")) is True, x)
            continue
        echo_info(S, x, v, A1, "echo")
    for x in S.run(TI + "simultaneous_rounds"):
        v = x.ok()
        if v is None:
            S.xob("simultaneous", "fails only if not applicable", x.kind == "ret" and x.yes(A2) and x.dec(F(A1, "id.is_echo")) is True, x)
            continue
        a = atoms(v)
        base = frozenset(("set", F(A1, f)) for f in ("parents", "siblings", "children"))
        f = x.dec(A2)
        n["sim", f] = n.get(("sim", f), 0) + 1
        if not S.xob("simultaneous", "rounds", a is not None and base <= a, x, "a parent, sibling or child is left out: %s" % clip(pretty(v), 400)):
            continue
        rest = a - base
        ok = f is False and not rest or f is True and len(rest) == 1 and all(
            q[0] == "elem" and is_rid(x, q[1], F(A1, "id.round"), F(A1, "id.groups"), TRUE) for q in rest)
        S.xob("simultaneous", "echo=%s" % f, ok, x, clip(pretty(v), 400))
    for f in (True, False):
        S.need("simultaneous", "echo=%s" % f, n.get(("sim", f), 0), 1)
    for x in S.run(TI + "id"):
        S.xob("transition-info", "id", x.val is F(A1, "id") or is_rid(x, x.val, F(A1, "id.round"), F(A1, "id.groups"), F(A1, "id.is_echo")), x)
    for name, last in (("new_linear", False), ("new_linear_terminating", True)):
        for x in S.run(TI + name):
            if x.kind != "ret":
                continue
            v = x.val
            S.xob("transition-info", name + " id", plain(x, F(v, "id"), A1), x)
            first = x.dec(T_("lt", INT(1), A1))
            if first is None:
                first = (lambda a, b: False if a is True or b is True else None)(x.dec(eq(A1, INT(1))), x.dec(eq(A1, INT(0))))
            p = atoms(F(v, "parents"))
            if first is True:
                ok = p is not None and len(p) == 1 and all(q[0] == "elem" and plain(x, q[1], T_("sub", A1, INT(1))) for q in p)
            else:
                ok = first is False and p == frozenset()
            S.xob("transition-info", name + " parents", ok, x)
            S.xob("transition-info", name + " siblings", atoms(F(v, "siblings")) == frozenset(), x)
            c = atoms(F(v, "children"))
            ok = c == frozenset() if last else c is not None and len(c) == 1 and all(
                q[0] == "elem" and plain(x, q[1], T_("add", A1, INT(1))) for q in c)
            S.xob("transition-info", name + " children", ok, x)
            S.xob("transition-info", name + " result", F(v, "may_produce_result") is BOOL(last), x)
            n[name] = n.get(name, 0) + 1
        S.need("transition-info", name, n.get(name, 0), 2)
    for name, g in (("with_children", "children"), ("with_siblings", "siblings")):
        for x in S.run(TI + name):
            v = x.val
            for f in ("id", "parents", "siblings", "children", "may_produce_result"):
                if f != g:
                    S.xob("transition-info", "%s keeps %s" % (name, f), x.kind == "ret" and F(v, f) is F(A1, f), x)
            a = atoms(F(v, g))
            ok = a is not None and ("set", F(A1, g)) in a and len(a) == 2 and all(
                q[0] == "map" and q[1] is A2 and plain(x, q[2], ekey0(A2)) for q in a - {("set", F(A1, g))})
            S.xob("transition-info", name, ok, x, clip(pretty(F(v, g)), 300))
    # ---- the transition itself
    for x in S.run(FIN):
        cs = finalize_calls(x)
        if x.kind == "ret" and x.ok() is not None and x.ok().a[1] == "AnotherRound":
            s = unwrap_session(fld(x.ok(), "AnotherRound", "session"))
            ti = F(s, "transition_info")
            if cs:
                n["child"] = n.get("child", 0) + 1
                S.xob("declared-children", "next round", x.has(F(A1, "transition_info.children"), F(ti, "id")) is True, x,
                      "the protocol may continue with a round it did not declare")
                S.xob("declared-children", "transition info", isapp(ti, DYN + "transition_info") and ti.a[1][0] is F(s, "round") or
                      any(isapp(u, DYN + "transition_info") for u in [ti]), x, "not the new round's own transition info")
            else:
                n["echo-next"] = n.get("echo-next", 0) + 1
                er = find_adt(F(s, "round"), "EchoRound")
                S.xob("echo-between", "main round", er is not None and F(er, "main_round") is F(A1, "round"), x)
                S.xob("echo-between", "transition info", isapp(ti, DYN + "transition_info") and find_adt(ti.a[1][0], "EchoRound") is er and er is not None, x,
                      "not the echo round's own transition info: " + clip(pretty(ti), 200))
        elif cs and x.kind == "ret" and x.err() is not None:
            c = cs[0]
            if x.yes(isvar(c, "Ok")) and x.yes(isvar(okv(c), "AnotherRound")):
                idt = [f.a[1] for f, v in x.facts.items() if v is False and isinstance(f, T) and f.op == "has" and f.a[0] is F(A1, "transition_info.children")]
                if idt:
                    n["refused"] = n.get("refused", 0) + 1
                    S.xob("declared-children", "otherwise a local error", isadt(x.err(), "LocalError"), x)
    for k in ("child", "echo-next", "refused"):
        S.need("declared-children", k, n.get(k, 0), 1)
    for x in S.run(ER(S, "transition_info")):
        n["er"] = n.get("er", 0) + 1
        if x.kind != "ret" and any(v is True and isinstance(f, T) and f.op == "fld" and f.a[2] == "is_echo" for f, v in x.facts.items()):
            continue  # the echo round of an echo round: C13 excludes it
        if not S.xob("echo-between", "echo round info", x.kind == "ret", x):
            continue
        srcs = [t for t in subterms(x.val) if isapp(t, DYN + "transition_info")]
        src = srcs[0] if srcs else None
        if S.xob("echo-between", "derived from the main round", src is not None and strip_(src.a[1][0]) is F(A1, "main_round"), x, clip(pretty(x.val), 300)):
            echo_info(S, x, x.val, src, "echo round")
    S.need("echo-between", "echo round info", n.get("er", 0), 1)
    for x in S.run(SESSION + "new"):
        s = x.ok()
        if s is not None:
            S.xob("declared-children", "first round", isapp(F(s, "transition_info"), DYN + "transition_info"), x)


def strip_(t):
    while isadt(t, "Box") or isadt(t, "BoxedRound"):
        t = t.a[3][0]
    return t


def under_group(x, t, base, g):
    return is_rid(x, t, F(base, "round"), F(t, "groups"), F(base, "is_echo")) and F(t, "groups") is T_("push", F(base, "groups"), g) \
        and (F(t, "is_echo") is F(base, "is_echo"))


def echo_info(S, x, v, src, key):
    S.xob("echo-between", key + " id", is_rid(x, F(v, "id"), F(src, "id.round"), F(src, "id.groups"), TRUE), x, clip(pretty(F(v, "id")), 200))
    p = atoms(F(v, "parents"))
    S.xob("echo-between", key + " parents", p is not None and len(p) == 1 and all(q[0] == "elem" and same_value(x, q[1], F(src, "id")) for q in p), x, clip(pretty(F(v, "parents")), 300))
    S.xob("echo-between", key + " siblings", atoms(F(v, "siblings")) == frozenset(), x)
    S.xob("echo-between", key + " children", F(v, "children") is F(src, "children"), x)
    S.xob("echo-between", key + " result", F(v, "may_produce_result") is F(src, "may_produce_result"), x)


def identity_of_ids(S):
    """identifiers are compared and ordered by all of their fields"""
    have = {}
    for i in S.prog.ix.get("impls", []):
        if adt_name(i.get("self", "")) == "RoundId":
            have[(i.get("trait") or "").split("<")[0].split("::")[-1]] = i
    for t in ("PartialEq", "Eq", "PartialOrd", "Ord"):
        i = have.get(t)
        S.ob("identifiers", "derived " + t, i is not None, i.get("span", "") if i else "", "RoundId does not implement %s" % t)


def adt_name(s):
    return s.split("<")[0].split("::")[-1]
