"""C20: type-erased rounds pass every request on to the typed round."""
from lib import *
from session_rules import *
from evidence_rules import decoded, deser_type
from chain_rules import path_to, walk, arg_is, rng_from, calls, type_arg

ROUND = "protocol::round::Round::"
DR = "protocol::dyn_round::"
A5 = sym("arg5")
KINDS = {"direct_message": "DirectMessage", "echo_broadcast": "EchoBroadcast", "normal_broadcast": "NormalBroadcast"}


def unboxed(t):
    while t.op == "adt" and len(t.a[3]) == 1 and t.a[0] not in (RESULT, OPTION):
        t = t.a[3][0]
    return t


def run(S, root):
    return S.run(root, None, False)


def type_is_marker(x, ty, marker="NoMessage"):
    """three valued: the declared type is the marker for an absent part"""
    for f, v in x.facts.items():
        if isinstance(f, T) and f.op == "eq" and all(isapp(u, "TypeId::of") for u in f.a):
            ts = [type_arg(u) for u in f.a]
            if any(t.endswith("::" + marker) for t in ts) and any(t.endswith(">::" + ty) for t in ts):
                return v
    return None


def serialized(x, part, kind, value, fmt):
    """the part of this kind carries exactly `value` through `fmt` (or nothing, if the kind is declared absent)"""
    if not isadt(part, kind):
        return False
    p = part.a[3][0]
    marker = type_is_marker(x, kind)
    if marker is True:
        return p.op == "adt" and p.a[1] == "None"
    if marker is not False or not (p.op == "adt" and p.a[1] == "Some"):
        return False
    b = unboxed(somev(p))
    if not (b.op == "fld" and b.a[1] == "Ok" and isapp(b.a[0], "DynSerializer::serialize")):
        return False
    a = b.a[0].a[1]
    return a[0] is F(fmt, "serializer") and a[1] is value


def serializer_error(x, value, fmt):
    e = x.err()
    return e is not None and e.op == "fld" and e.a[1] == "Err" and isapp(e.a[0], "DynSerializer::serialize") and e.a[0].a[1][1] is value


@check("C20")
def c20(S):
    n = {}
    w = lambda m: impl_fn(S, "RoundWrapper", "DynRound", m)
    rp = None
    for x in run(S, DR + "RoundWrapper::new"):
        rp = path_to(x.val, A1)
        S.xob("forwarded", "wrapped as it is", x.kind == "ret" and rp is not None, x)
    R = walk(A1, rp)
    for m in ("transition_info", "communication_info"):
        for x in run(S, w(m)):
            S.xob("forwarded", m, x.kind == "ret" and isapp(x.res, ROUND + m) and x.res.a[1][0] is R, x, clip(pretty(x.val), 200))
            n[m] = 1
        S.need("forwarded", m, n.get(m, 0), 1)
    # ---- messages created
    for m, kind in (("make_direct_message", "DirectMessage"), ("make_echo_broadcast", "EchoBroadcast"), ("make_normal_broadcast", "NormalBroadcast")):
        for x in run(S, w(m)):
            cs = calls(x, ROUND + m)
            ok = x.kind == "ret" and len(cs) == 1 and cs[0].args[0] is R and rng_from(cs[0].args[1]) and (kind != "DirectMessage" or cs[0].args[2] is A4)
            if not S.xob("forwarded", m, ok, x):
                continue
            c = cs[0].ret
            if x.no(isvar(c, "Ok")):
                S.xob("forwarded", m + " error", x.err() is errv(c), x)
                continue
            val = okv(c) if kind != "DirectMessage" else fld(okv(c), None, "0")
            if x.ok() is None:
                S.xob("own-slot", kind + " not serialized", serializer_error(x, val, A3), x)
                continue
            n[kind, type_is_marker(x, kind)] = 1
            part = x.ok() if kind != "DirectMessage" else fld(x.ok(), None, "0")
            S.xob("own-slot", kind, serialized(x, part, kind, val, A3), x, clip(pretty(x.ok()), 400))
            if kind == "DirectMessage":
                a = fld(x.ok(), None, "1")
                S.xob("own-slot", "artifact", isadt(a, "Artifact") and unboxed(a) is fld(okv(c), None, "1"), x, clip(pretty(a), 200))
        for f in (True, False):
            S.need("own-slot", "%s absent=%s" % (kind, f), n.get((kind, f), 0), 1)
    # ---- messages received
    for x in run(S, w("receive_message")):
        cs = calls(x, ROUND + "receive_message")
        if not cs:
            e = x.err()
            S.xob("forwarded", "not received only if malformed", e is not None and e.op == "adt" and e.a[1].startswith("Invalid"), x)
            continue
        n["recv"] = 1
        c = cs[0].ret
        a = cs[0].args
        if not S.xob("forwarded", "receive_message", x.kind == "ret" and len(cs) == 1 and a[0] is R and a[1] is A3, x):
            continue
        for f, kind in KINDS.items():
            v = F(a[2], f)
            pay = F(F(A4, f), "0")
            S.xob("own-slot", "received " + kind, decoded(x, v, pay, kind) or x.dec(isvar(pay, "Some")) is False and type_is_marker(x, kind) is True, x, clip(pretty(v), 300))
            for t in subterms(v):
                if deser_type(t) is not None:
                    S.xob("own-slot", "received through the format", any(u is F(A2, "deserializer_factory") for u in subterms(t)), x)
        if x.yes(isvar(c, "Ok")):
            S.xob("handed-back", "payload", x.ok() is not None and isadt(x.ok(), "Payload") and unboxed(x.ok()) is okv(c), x, clip(pretty(x.val), 300))
            n["payload"] = 1
            continue
        e, src = x.err(), errv(c)
        for k in ("Local", "Unprovable", "Protocol"):
            if x.yes(isvar(src, k)):
                n["err", k] = 1
                ok = e is not None and e.op == "adt" and e.a[1] == k
                if ok and k == "Protocol":
                    p = fld(e, k, "0")
                    q = fld(src, k, "0")
                    rm = F(p, "required_messages")
                    ok = unboxed(F(p, "error")) is q and isapp(rm, "ProtocolError::required_messages") and rm.a[1][0] is q and \
                        rm.a[1][1].op == "fld" and rm.a[1][1].a[2] == "id" and isapp(rm.a[1][1].a[0], ROUND + "transition_info") and rm.a[1][1].a[0].a[1][0] is R
                elif ok:
                    ok = fld(e, k, "0") is fld(src, k, "0")
                S.xob("error-kind-kept", k, ok, x, clip(pretty(e), 400))
                break
        else:
            S.xob("error-kind-kept", "known", False, x)
    for k in ("recv", "payload"):
        S.need("forwarded", k, n.get(k, 0), 1)
    for k in ("Local", "Unprovable", "Protocol"):
        S.need("error-kind-kept", k, n.get(("err", k), 0), 1)
    # ---- finalization
    for x in run(S, w("finalize")):
        cs = calls(x, ROUND + "finalize")
        if not cs:
            # only if a stored value is not of the round's type
            bad = any(v is False and isinstance(f, T) and f.op == "isvar" and isapp(f.a[0], "downcast") for f, v in x.facts.items())
            S.xob("handed-back", "refused only for a foreign value", bad and isadt(x.err(), "LocalError"), x)
            continue
        n["fin"] = 1
        a = cs[0].args
        c = cs[0].ret
        S.xob("forwarded", "finalize", len(cs) == 1 and a[0] is R and rng_from(a[1]) and (x.val is c or x.ok() is okv(c) or x.err() is errv(c)), x)
        for i, src, kind in ((2, A3, "Payload"), (3, A4, "Artifact")):
            e = entries(x, a[i])
            ok = e is not None and e[0] is src and not e[2] and len(e[1]) > 0
            k = ekey0(src)
            if ok:
                for y, key, val in e[1]:
                    ok = ok and key is k and val.op == "fld" and val.a[1] == "Ok" and isapp(val.a[0], "downcast") and \
                        unboxed_of(val.a[0].a[1][0]) is get(src, k) and type_arg(val.a[0]).endswith(">::" + kind)
                ys = forall_states(x, src)
                ok = ok and all(any(y.yes(isvar(val.a[0], "Ok")) for _, _, val in e[1]) for y in ys)
            S.xob("handed-back", kind + "s", ok, x, clip(pretty(a[i]), 400))
    S.need("handed-back", "finalization", n.get("fin", 0), 1)
    # ---- boxes
    wrappers(S)
    rng(S)


def unboxed_of(t):
    while t.op == "fld" and t.a[1] is None and t.a[2] == "0":
        t = t.a[0]
    return t


def same_inner(t, base):
    """t is what is inside the box held by base, through variants and single fields only"""
    while t.op == "fld" and t is not base:
        t = t.a[0]
    return t is base


def wrappers(S):
    for kind in ("Payload", "Artifact"):
        for x in run(S, DR + kind + "::new"):
            S.xob("handed-back", kind + " stored", x.kind == "ret" and isadt(x.val, kind) and unboxed(x.val) is A1, x)
        for x in run(S, DR + kind + "::downcast"):
            v = x.ok()
            ok = v is not None and v.op == "fld" and isapp(v.a[0], "downcast") and same_inner(v.a[0].a[1][0], A1) and x.yes(isvar(v.a[0], "Ok")) or \
                x.err() is not None and any(b is False and isinstance(f, T) and f.op == "isvar" and isapp(f.a[0], "downcast") for f, b in x.facts.items())
            S.xob("handed-back", kind + " read back", x.kind == "ret" and ok, x, clip(pretty(x.val), 200))
    for m, arg in (("BoxedRound::new", A1), ("BoxedRound::new_dynamic", A1), ("BoxedTypedRound::new", A1)):
        for x in run(S, DR + m):
            S.xob("forwarded", m, x.kind == "ret" and unboxed(x.val) is A1, x, clip(pretty(x.val), 200))
    for m in ("BoxedRound::as_ref", "BoxedRound::into_inner", "BoxedTypedRound::as_ref", "BoxedTypedRound::into_inner"):
        k = 0
        for x in run(S, DR + m):
            k += 1
            S.xob("forwarded", m, x.kind == "ret" and same_inner(x.val, A1) and x.val is not A1, x, clip(pretty(x.val), 200))
        S.need("forwarded", m, k, 1)


def rng(S):
    for m in ("next_u32", "next_u64", "fill_bytes", "try_fill_bytes"):
        for x in run(S, impl_fn(S, "BoxedRng", "RngCore", m)):
            cs = calls(x, "RngCore::" + m)
            ok = x.kind == "ret" and len(cs) == 1 and any(u is A1 for u in subterms(cs[0].args[0])) and (
                m == "fill_bytes" or x.res is cs[0].ret) and (m in ("next_u32", "next_u64") or arg_is(x, cs[0].args[1], 2))
            S.xob("forwarded", "random generator: " + m, ok, x, clip(pretty(x.val), 200) if x.val is not None else "")
