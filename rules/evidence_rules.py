"""C10: what verified evidence implies; C11: reception and verification agree on malformed parts;
C12: the messages put into protocol evidence and how they are presented when verifying."""
from lib import *
from session_rules import *
from message_rules import template, part_kind, payload_of_, value_at
from echo_rules import entry_verified, entry_unverifiable, hash_equal, find_adt, ER

EV = "session::evidence::Evidence::verify"
APM = SESSION + "add_processed_message"
KIND = {"direct_message": "DirectMessage", "echo_broadcast": "EchoBroadcast", "normal_broadcast": "NormalBroadcast"}
INVALID = {"Invalid" + v: k for k, v in KIND.items()}
EVIDENCE = F(A1, "evidence")
GUILTY = F(A1, "guilty_party")


def variant_of(x, t):
    for f, v in x.facts.items():
        if v is True and isinstance(f, T) and f.op == "isvar" and f.a[0] is t:
            return f.a[1]
    return None


def could_succeed(x):
    """the exit may report success: Ok itself, or the answer of the round or the protocol is passed on"""
    if x.kind != "ret" or x.val is None:
        return False
    return not isadt(x.val, "Result", "Err")


def verified_as(x, who, part, kind):
    """`part` verified under `who`'s key as a part of that kind"""
    if not part_verified(x, who, part):
        return False
    sg = F(part, "signature.0")
    for v, h, s in verify_facts(x):
        if x.same(v, who) and sig_of(s) is not None and x.same(sig_of(s), sg) and h.op == "hash":
            tm = template(x, h, F(part, MWM + ".metadata"), payload_of_(part))
            if tm is not None and ("kind", kind) in tm:
                return True
    return False


def in_session(x, part, sid):
    return x.same(F(part, MWM + ".metadata.session_id"), sid)


def in_round(x, part, rid):
    return same_round(x, F(part, MWM + ".metadata.round_id"), rid)


def same_round(x, a, b):
    return x.same(a, b) or all(same_flag(x, F(a, n), F(b, n)) for n in ("round", "groups", "is_echo"))


def same_flag(x, a, b):
    if x.same(a, b):
        return True
    p, q = x.dec(a) if a.op != "bool" else a.a[0], x.dec(b) if b.op != "bool" else b.a[0]
    return p is not None and p is q


def main_round_of(x, a, rid):
    """a is an echo round identifier whose main round is rid"""
    if x.dec(F(a, "is_echo")) is not True:
        return False
    want = [F(a, "round"), F(a, "groups")]
    for f, v in x.facts.items():
        if v is True and isinstance(f, T) and f.op == "eq":
            for s, t in (f.a, f.a[::-1]):
                if (s is rid or x.same(s, rid)) and F(t, "round") is want[0] and F(t, "groups") is want[1] and F(t, "is_echo") is FALSE:
                    return True
    return all(x.same(F(rid, n), w) for n, w in zip(("round", "groups"), want)) and x.dec(F(rid, "is_echo")) is False


def other_metadata(x, a, session, echo_rid):
    """metadata `a` is known to differ from (session, main round of echo_rid)"""
    if x.no(eq(F(a, "session_id"), session)):
        return True
    rid = F(a, "round_id")
    for f, v in x.facts.items():
        if v is not False or not isinstance(f, T) or f.op != "eq":
            continue
        for s, t in (f.a, f.a[::-1]):
            if s is a and F(t, "session_id") is session and is_main(x, F(t, "round_id"), echo_rid):
                return True
            if s is rid and is_main(x, t, echo_rid):
                return True
    return False


def is_main(x, t, echo_rid):
    return F(t, "round") is F(echo_rid, "round") and F(t, "groups") is F(echo_rid, "groups") and F(t, "is_echo") is FALSE


def echo_hashes_of(x, part):
    """the hashes carried by an echo round message: the deserialized payload of its normal broadcast"""
    pay = payload_of_(part)
    for f, v in x.facts.items():
        if v is True and isinstance(f, T) and f.op == "isvar" and f.a[1] == "Ok" and deser_type(f.a[0], "EchoRoundMessage") \
                and any(u is pay or (u.op == "fld" and u.a[0] is pay) for u in subterms(f.a[0])):
            return F(F(okv(f.a[0]), "message_hashes"), "0")
    return None


def deser_type(t, name=None):
    if not (isapp(t, "deserialize") and t.a[1] and t.a[1][-1].op == "str"):
        return None
    s = t.a[1][-1].a[0]
    return s if name is None or name in s else None


@check("C10")
def c10(S):
    n = {}
    for x in S.run(EV):
        if not could_succeed(x):
            continue
        v = variant_of(x, EVIDENCE)
        if not S.xob("kind-known", str(v), v is not None, x, "evidence is accepted without looking at its kind"):
            continue
        n[v] = n.get(v, 0) + 1
        d = fld(EVIDENCE, v, "0")
        if v in INVALID:
            part = fld(d, None, "0")
            k = KIND[INVALID[v]]
            S.xob("signed-by-guilty", v, verified_as(x, GUILTY, part, k), x, "the malformed part may not be signed by the accused")
            S.xob("incriminating", v, malformed_confirmed(x, part, INVALID[v]), x, "the part need not be malformed")
        elif v == "InvalidEcho":
            invalid_echo(S, x, d)
        elif v == "MismatchedBroadcasts":
            mismatched(S, x, d)
        elif v == "Protocol":
            protocol(S, x, d)
        else:
            S.xob("kind-known", v, False, x, "an unknown kind of evidence is accepted")
    for v, c in (("InvalidDirectMessage", 2), ("InvalidEchoBroadcast", 2), ("InvalidNormalBroadcast", 2), ("InvalidEcho", 2),
                 ("MismatchedBroadcasts", 1), ("Protocol", 7)):
        S.need("incriminating", v, n.get(v, 0), c)
    # rounds without provable errors: whatever somebody calls one does not verify
    for x in S.run(impl_fn(S, "NoProtocolErrors", "ProtocolError", "verify_evidence")):
        S.xob("incriminating", "no provable errors", not could_succeed(x), x, "an error of a round which has none can be verified")


def malformed_confirmed(x, part, kind):
    rid = F(part, MWM + ".metadata.round_id")
    if x.val.op == "adt" and not isapp(x.res, "verify_%s_is_invalid" % kind):
        if x.dec(F(rid, "is_echo")) is not True:
            return False
        return malformed(x, kind, payload_of_(part), None) is True
    if isapp(x.res, "verify_%s_is_invalid" % kind):
        a = x.res.a[1]
        if not (round_info_of(x, a[0], rid) and a[2] is F(part, MWM + ".message")):
            return False
        return x.dec(F(rid, "is_echo")) is False
    return False


def round_info_of(x, t, rid):
    while t.op == "fld" or isadt(t, "Box"):
        t = t.a[0] if t.op == "fld" else t.a[3][0]
    return isapp(t, "round_info") and x.same(t.a[1][0], rid)


def invalid_echo(S, x, d):
    nb = F(d, "normal_broadcast")
    who = F(d, "error.invalid_echo_sender")
    S.xob("signed-by-guilty", "InvalidEcho", verified_as(x, GUILTY, nb, "NormalBroadcast"), x)
    M = echo_hashes_of(x, nb)
    if not S.xob("incriminating", "InvalidEcho", M is not None, x, "the echo message is not looked into"):
        return
    S.xob("incriminating", "InvalidEcho entry", x.has(M, who) is True, x, "the incriminating entry may not be in the message")
    ent = get(M, who)
    rid = F(nb, MWM + ".metadata.round_id")
    S.xob("incriminating", "InvalidEcho from an echo round", x.dec(F(rid, "is_echo")) is True, x)
    bad = entry_unverifiable(x, who, ent) or other_metadata(x, F(ent, "metadata"), F(nb, MWM + ".metadata.session_id"), rid)
    S.xob("incriminating", "InvalidEcho wrong entry", bad, x, "nothing is known to be wrong with the entry")


def mismatched(S, x, d):
    e = F(d, "error")
    a, b = F(e, "we_received"), F(e, "echoed_to_us")
    S.xob("signed-by-guilty", "broadcast", verified_as(x, GUILTY, a, "EchoBroadcast") or
          (x.same(GUILTY, F(e, "guilty_party")) and verified_as(x, F(e, "guilty_party"), a, "EchoBroadcast")), x)
    S.xob("signed-by-guilty", "echoed hash", entry_verified(x, GUILTY, b), x)
    S.xob("incriminating", "same round", same_metadata(x, F(a, MWM + ".metadata"), F(b, "metadata")), x)
    S.xob("incriminating", "contradiction", hash_equal(x, F(b, "message_part_hash"), a) is False, x)


def trigger(x, d):
    return [(k, somev(F(d, k))) for k in KIND if x.yes(isvar(F(d, k), "Some"))]


def protocol(S, x, d):
    tr = trigger(x, d)
    for k in KIND:
        S.xob("trigger-known", k, x.dec(isvar(F(d, k), "Some")) is not None, x)
    if not S.xob("trigger-known", "present", bool(tr), x, "no part of the triggering message"):
        return
    sid = F(tr[0][1], MWM + ".metadata.session_id")
    rid = F(tr[0][1], MWM + ".metadata.round_id")
    for k, p in tr:
        S.xob("signed-by-guilty", "trigger " + k, verified_as(x, GUILTY, p, KIND[k]), x)
        S.xob("one-session", "trigger " + k, in_session(x, p, sid), x)
        S.xob("filed-round", "trigger " + k, in_round(x, p, rid), x)
    for k in KIND:
        M = F(F(d, k + "s"), "0")
        K = ekey0(M)
        for y in forall_states(x, M):
            p = get(M, K)
            S.xob("signed-by-guilty", "previous " + k, verified_as(y, GUILTY, p, KIND[k]), y)
            S.xob("one-session", "previous " + k, in_session(y, p, sid), y)
            S.xob("filed-round", "previous " + k, in_round(y, p, K), y)
    M = F(F(d, "echo_hashes"), "0")
    O = F(F(d, "other_echo_broadcasts"), "0")
    K = ekey0(M)
    for y in forall_states(x, M):
        p = get(M, K)
        S.xob("signed-by-guilty", "echo message", verified_as(y, GUILTY, p, "NormalBroadcast"), y)
        S.xob("one-session", "echo message", in_session(y, p, sid), y)
        S.xob("filed-round", "echo message", main_round_of(y, F(p, MWM + ".metadata.round_id"), K), y)
        H = echo_hashes_of(y, p)
        if not S.xob("echoed-entries", "read", H is not None, y):
            continue
        S.xob("echoed-entries", "broadcasts present", y.has(O, K) is True, y)
        B = F(get(O, K), "0")
        k2 = ekey0(H)
        for z in forall_states(y, H):
            ent, b = get(H, k2), get(B, k2)
            S.xob("echoed-entries", "signed by originator", entry_verified(z, k2, ent), z)
            S.xob("echoed-entries", "broadcast present", z.has(B, k2) is True, z)
            S.xob("echoed-entries", "broadcast signed by originator", verified_as(z, k2, b, "EchoBroadcast"), z)
            S.xob("one-session", "echoed entry", z.same(F(ent, "metadata.session_id"), sid), z)
            S.xob("filed-round", "echoed entry", same_round(z, F(ent, "metadata.round_id"), K), z)
            S.xob("one-session", "echoed broadcast", in_session(z, b, sid), z)
            S.xob("filed-round", "echoed broadcast", in_round(z, b, K), z)
            S.xob("echoed-entries", "hash of the broadcast", hash_equal(z, F(ent, "message_part_hash"), b) is True, z)
    S.xob("incriminating", "Protocol", isapp(x.res, "verify_evidence"), x, "the protocol is not asked")


# ---------------------------------------------------------------------------------------------------- C11
def malformed(x, kind, pay, ty):
    """three valued: the payload is malformed as a part of `kind`; ty is the declared type or None for an echo round"""
    some = x.dec(isvar(pay, "Some"))
    if ty is None:
        nm = kind != "normal_broadcast"
    else:
        nm = None
        for f, v in x.facts.items():
            if isinstance(f, T) and f.op == "eq" and all(isapp(u, "TypeId::of") for u in f.a):
                ts = [pretty(u.a[1][-1]) for u in f.a]
                if any("NoMessage" in t for t in ts) and any(t.rstrip("'").endswith(ty) for t in ts):
                    nm = v
    if nm is None:
        return None
    if nm:
        return some
    if some is False:
        return True
    if some is None:
        return None
    for f, v in x.facts.items():
        if isinstance(f, T) and f.op == "isvar" and f.a[1] == "Ok":
            t = deser_type(f.a[0])
            if t and t.endswith(ty if ty else ">") and (ty or "EchoRoundMessage" in t) and \
                    any(u is somev(pay) for u in subterms(f.a[0])):
                return not v
    return None


@check("C11")
def c11(S):
    n = {}
    for who, root, suffix in (("protocol round", impl_fn(S, "RoundWrapper", "DynRound", "receive_message"), "Round<Id>>::"),
                              ("echo round", ER(S, "receive_message"), None)):
        for x in S.run(root):
            if x.kind != "ret":
                continue
            e = x.err()
            st = {k: malformed(x, k, F(A4, k + ".0"), suffix + KIND[k] if suffix else None) for k in KIND}
            v = e.a[1] if e is not None and e.op == "adt" else None
            if v in INVALID:
                n[who, v] = n.get((who, v), 0) + 1
                S.xob("rejected-only-if-malformed", "%s %s" % (who, v), st[INVALID[v]] is True, x, "the part is not known to be malformed")
            elif e is not None and e.op == "adt" and v == "Local":
                pass
            else:
                n[who, "accepted"] = n.get((who, "accepted"), 0) + 1
                for k in KIND:
                    S.xob("accepted-only-if-well-formed", "%s %s" % (who, k), st[k] is False, x, "a malformed part may be accepted")
        for v in list(INVALID) + ["accepted"]:
            S.need("rejected-only-if-malformed", "%s %s" % (who, v), n.get((who, v), 0), 1)
    for k in KIND:
        for x in S.run(impl_fn(S, "RoundInfoObject", "DynRoundInfo", "verify_%s_is_invalid" % k)):
            st = malformed(x, k, F(A3, "0"), "Round<Id>>::" + KIND[k])
            verdict(S, x, "protocol round " + k, st, n)
    for x in S.run(EV):
        v = variant_of(x, EVIDENCE)
        if v not in INVALID or x.kind != "ret":
            continue
        part = fld(fld(EVIDENCE, v, "0"), None, "0")
        rid = F(part, MWM + ".metadata.round_id")
        if not verified_as(x, GUILTY, part, KIND[INVALID[v]]):
            continue
        k = INVALID[v]
        e = x.dec(F(rid, "is_echo"))
        if e is True:
            verdict(S, x, "echo round " + k, malformed(x, k, payload_of_(part), None), n)
        elif e is False:
            if isadt(x.res, "Result", "Err"):
                S.xob("confirmed-iff-malformed", "unknown round " + k, any(
                    v2 is False and isinstance(f, T) and f.op == "isvar" and round_info_of(x, f.a[0], rid) for f, v2 in x.facts.items()), x,
                      "rejected although the round is known")
            else:
                n["asked", k] = n.get(("asked", k), 0) + 1
                S.xob("confirmed-iff-malformed", "asks the round " + k, malformed_confirmed(x, part, k), x)
        else:
            S.xob("confirmed-iff-malformed", "round kind " + k, False, x, "protocol and echo rounds are not told apart")
    for k in KIND:
        S.need("confirmed-iff-malformed", "asks the round " + k, n.get(("asked", k), 0), 1)
        for w in ("protocol round ", "echo round "):
            for r in (True, False):
                S.need("confirmed-iff-malformed", "%s%s %s" % (w, k, r), n.get((w + k, r), 0), 1)


def verdict(S, x, who, st, n):
    if x.kind != "ret":
        S.xob("confirmed-iff-malformed", who, False, x, "panics")
    elif x.ok() is not None:
        n[who, True] = n.get((who, True), 0) + 1
        S.xob("confirmed-iff-malformed", who, st is True, x, "confirmed although the part is not known to be malformed")
    elif x.err() is not None and x.err().op == "adt" and x.err().a[1] == "InvalidEvidence":
        n[who, False] = n.get((who, False), 0) + 1
        S.xob("confirmed-iff-malformed", who, st is False, x, "denied although the part may be malformed")
    elif x.err() is None:
        S.xob("confirmed-iff-malformed", who, False, x, "unexpected answer")


# ---------------------------------------------------------------------------------------------------- C12
@check("C12")
def c12(S):
    P = fld(fld(F(A3, "processed"), "Err", "0"), "Protocol", "0")
    RM = F(P, "required_messages")
    frm = F(A3, "message.from")
    n = {}
    for x in S.run(APM):
        d = None
        for u in subterms(x.post(2)):
            if isadt(u, "ProtocolEvidence"):
                d = u
        if d is None:
            continue
        for k in KIND:
            req = x.dec(F(RM, "this_round." + k))
            t = F(d, k)
            n[k, req] = n.get((k, req), 0) + 1
            S.xob("trigger-iff-required", "%s decided" % k, req is not None, x, "whether the part is required is not looked at")
            if req:
                S.xob("trigger-iff-required", k + " included", t.op == "adt" and t.a[1] == "Some" and all(
                    same_value(x, F(t.a[3][0], f), F(A3, "message." + k + "." + f)) for f in ("signature", MWM)), x)
            else:
                S.xob("trigger-iff-required", k + " left out", isadt(t, "Option", "None"), x)
            if x.no(isvar(F(RM, "previous_rounds"), "Some")):
                S.xob("previous-iff-required", k + " none", empty_map(F(d, k + "s")), x)
                continue
            src = somev(F(RM, "previous_rounds"))
            e = entries(x, F(d, k + "s"))
            if not S.xob("previous-iff-required", k, e is not None and same_src(e[0], src), x, "not one look at each listed round"):
                continue
            K = ekey0(src)
            flag = F(get(src, K), k)
            per = F(A1, "transcript." + k + "s")
            for y, key, val in e[1]:
                n["ins", k] = n.get(("ins", k), 0) + 1
                S.xob("previous-iff-required", k + " only if required", y.yes(flag), y)
                S.xob("previous-iff-required", k + " filed under its round", key is K, y)
                S.xob("previous-iff-required", k + " the party's message", same_value(y, val, get(get(per, K), frm)), y, "another message: %s" % clip(pretty(val), 300))
            for y in e[2]:
                S.xob("previous-iff-required", k + " if required", y.no(flag), y, "a required part may be left out")
        for f, want in (("echo_hashes", None), ("other_echo_broadcasts", None)):
            if x.no(isvar(F(RM, "combined_echos"), "Some")):
                S.xob("combined-iff-required", f + " none", empty_map(F(d, f)), x)
                continue
            src = somev(F(RM, "combined_echos"))
            e = entries(x, F(d, f))
            if not S.xob("combined-iff-required", f, e is not None and same_src(e[0], src), x, "not one look at each listed round"):
                continue
            K = ekey0(src)
            S.xob("combined-iff-required", f + " all", not e[2], x, "a required round may be left out")
            for y, key, val in e[1]:
                n["ins", f] = n.get(("ins", f), 0) + 1
                S.xob("combined-iff-required", f + " filed under its round", key is K, y)
                if f == "echo_hashes":
                    ok = any(same_value(y, val, get(get(F(A1, "transcript.normal_broadcasts"), r), frm)) for r in echo_ids(val, K))
                else:
                    m = F(val, "0")
                    base, gone = without(m)
                    ok = base is get(F(A1, "transcript.echo_broadcasts"), K) and len(gone) == 1 and y.same(gone[0], frm)
                    if not ok:
                        ok = others_by_loop(y, m, get(F(A1, "transcript.echo_broadcasts"), K), frm)
                S.xob("combined-iff-required", f + " content", ok, y, clip(pretty(val), 300))
        er = F(d, "error")
        S.xob("carries-error", "error", any(isapp(u, "DynProtocolError::serialize") and u.a[1][0] is F(P, "error") for u in subterms(er)), x)
    for k in KIND:
        for r in (True, False):
            S.need("trigger-iff-required", "%s %s" % (k, r), n.get((k, r), 0), 1)
        S.need("previous-iff-required", k, n.get(("ins", k), 0), 1)
    for f in ("echo_hashes", "other_echo_broadcasts"):
        S.need("combined-iff-required", f, n.get(("ins", f), 0), 1)
    presented(S)
    round_side(S)
    builders(S)


def builders(S):
    """what the protocol declares as required is what the declaration says: each builder adds its part and keeps the others"""
    RP = "protocol::evidence::RequiredMessageParts::"
    for k in KIND:
        for pre in ("", "and_"):
            for x in S.run(RP + pre + k):
                if not x.isret():
                    # the debug assertion that at least one part is required cannot fail
                    S.xob("declared-parts", pre + k + " no panic", False, x)
                    continue
                for f in KIND:
                    want = TRUE if f == k else F(A1, f) if pre else FALSE
                    S.xob("declared-parts", "%s%s: %s" % (pre, k, f), F(x.val, f) is want, x, clip(pretty(x.val), 200))
    for x in S.run("protocol::evidence::RequiredMessages::new"):
        for i, f in enumerate(("this_round", "previous_rounds", "combined_echos")):
            S.xob("declared-parts", "new: " + f, x.isret() and F(x.val, f) is (A1, A2, A3)[i], x, clip(pretty(x.val), 200))


def echo_ids(val, K):
    r = []
    for u in subterms(val):
        if isadt(u, "RoundId") and F(u, "round") is F(K, "round") and F(u, "groups") is F(K, "groups") and F(u, "is_echo") is TRUE:
            r.append(u)
    return r


def same_src(t, src):
    return t is src or members(t) == frozenset([("set", src)])


def others_by_loop(y, m, src, frm):
    e = entries(y, m)
    if e is None or e[0] is not src:
        return False
    k = ekey0(src)
    return all(z.no(eq(k, frm)) and key is k and same_value(z, val, get(src, k)) for z, key, val in e[1]) and \
        all(z.yes(eq(k, frm)) for z in e[2])


def empty_map(t):
    while isadt(t, "SerializableMap"):
        t = t.a[3][0]
    return t.op == "empty"


def keys_of(t):
    """the key sets a set or map is built from, as members()"""
    if t.op == "fold" and t.a[1].op == "empty":
        r = frozenset()
        if seq_keys(t.a[0]) is None:
            return members(t)
        for c, v in t.a[2]:
            if c or v.op != "ins" or v.a[0].op != "acc" or v.a[1].op != "ekey":
                return None
        return seq_keys(t.a[0])
    return members(t)


def seq_keys(q):
    if q.op == "seq" and q.a[1] in ("set", "keys", "map"):
        return keys_of(q.a[0])
    if q.op == "chain":
        r = frozenset()
        for u in q.a:
            if isinstance(u, T):
                m = seq_keys(u)
                if m is None:
                    return None
                r |= m
        return r
    if q.op in ("it", "itm"):
        return seq_keys(q.a[0])
    return None


def opt_entry(y, t, M, K, path):
    """t is: the entry of M at K (its field `path`) if there is one, else nothing"""
    h = has(M, K)
    if t.op == "opt":
        return t.a[0] is h and same_value(y, t.a[1], F(get(M, K), path))
    if isadt(t, "Option", "Some"):
        return y.dec(h) is True and same_value(y, t.a[3][0], F(get(M, K), path))
    if isadt(t, "Option", "None"):
        return y.dec(h) is False
    return False


def presented(S):
    """what the round is asked when protocol evidence is verified"""
    n = 0
    for x in S.run(EV):
        if not isapp(x.res, "verify_evidence") or x.kind != "ret":
            continue
        n += 1
        d = fld(EVIDENCE, "Protocol", "0")
        tr = trigger(x, d)
        if not S.xob("presented", "trigger", bool(tr), x):
            continue
        a = x.res.a[1]
        rid, sid = (F(tr[0][1], MWM + ".metadata." + q) for q in ("round_id", "session_id"))
        S.xob("presented", "asked round", round_info_of(x, a[0], rid), x)
        S.xob("presented", "round", x.same(a[1], rid), x)
        S.xob("presented", "error", a[3] is F(d, "error"), x)
        S.xob("presented", "guilty party", x.same(a[4], GUILTY), x)
        S.xob("presented", "shared randomness", x.same(a[5], F(sid, "0")) or a[5] is F(sid, "0"), x)
        S.xob("presented", "shared data", a[6] is A2, x)
        for k in KIND:
            t = F(a[7], k)
            if x.yes(isvar(F(d, k), "Some")):
                S.xob("presented", "trigger " + k, isadt(t, "Option", "Some") and same_value(x, t.a[3][0], F(somev(F(d, k)), MWM + ".message")), x, clip(pretty(t), 200))
            else:
                S.xob("presented", "trigger " + k, isadt(t, "Option", "None"), x)
        e = entries(x, a[8])
        if S.xob("presented", "previous messages", e is not None and not e[2], x):
            want = frozenset(("set", F(F(d, k + "s"), "0")) for k in KIND)
            S.xob("presented", "previous rounds", keys_of(e[0]) == want, x, "not the rounds of the attached messages")
            K = ekey0(e[0])
            for y, key, val in e[1]:
                S.xob("presented", "previous round", key is K, y)
                for k in KIND:
                    M = F(F(d, k + "s"), "0")
                    S.xob("presented", "previous " + k, opt_entry(y, F(val, k), M, K, MWM + ".message"), y, clip(pretty(F(val, k)), 400))
        e = entries(x, a[9])
        M = F(F(d, "echo_hashes"), "0")
        O = F(F(d, "other_echo_broadcasts"), "0")
        if S.xob("presented", "combined echos", e is not None and not e[2] and e[0] is M, x):
            K = ekey0(M)
            for y, key, val in e[1]:
                S.xob("presented", "echo round", key is K, y)
                H = echo_hashes_of(x if False else first_state(x, M), get(M, K))
                e2 = entries(y, val)
                if S.xob("presented", "echoed broadcasts", e2 is not None and not e2[2] and H is not None and e2[0] is H, y):
                    k2 = ekey0(H)
                    for z, key2, v2 in e2[1]:
                        S.xob("presented", "echoed broadcast", key2 is k2 and same_value(z, v2, F(get(F(get(O, K), "0"), k2), MWM + ".message")), z)
    S.need("presented", "exits", n, 7)


def first_state(x, M):
    ys = forall_states(x, M)
    return ys[0] if ys else x


def round_side(S):
    """from the round's type-erased metadata to the protocol's own verification, and the accessors it is given"""
    a7, a8, a9, a10 = (sym("arg%d" % i) for i in (7, 8, 9, 10))
    A5, A6 = sym("arg5"), sym("arg6")
    n = 0
    for x in S.run(impl_fn(S, "RoundInfoObject", "DynRoundInfo", "verify_evidence")):
        if x.kind == "ret" and isadt(x.res, "Result", "Err"):
            e = x.err()
            S.xob("passed-on", "refused only for an undecodable error", any(
                v is False and isinstance(f, T) and f.op == "isvar" and deser_type(f.a[0], "ProtocolError") for f, v in x.facts.items()), x)
            continue
        n += 1
        v = x.res
        if not S.xob("passed-on", "protocol asked", x.kind == "ret" and isapp(v, "ProtocolError::verify_evidence"), x):
            continue
        a = v.a[1]
        err = a[0]
        while err.op == "fld" and err.a[1] == "Ok":
            err = err.a[0]
        S.xob("passed-on", "error", deser_type(err, "ProtocolError") is not None and any(u is F(A4, "0") for u in subterms(err)), x)
        for nme, i, want in (("round", 1, A2), ("guilty party", 2, A5), ("shared randomness", 3, A6), ("shared data", 4, a7)):
            S.xob("passed-on", nme, a[i] is want, x)
        m = a[5]
        for f, want in (("message", a8), ("previous_messages", a9), ("combined_echos", a10), ("format", A3)):
            S.xob("passed-on", f, same_value(x, F(m, f), want), x)
    S.need("passed-on", "exits", n, 1)
    EM = "protocol::evidence::EvidenceMessages::"
    for k in KIND:
        accessor(S, k, EM + k, lambda K, k=k: F(A1, "message." + k), "R")
        accessor(S, "previous " + k, EM + "previous_" + k, lambda K, k=k: F(get(F(A1, "previous_messages"), K), k), "PR")
    n = 0
    for x in S.run(EM + "combined_echos"):
        v = x.ok()
        if v is None:
            continue
        n += 1
        K = plain_id(x)
        e = entries(x, v)
        src = get(F(A1, "combined_echos"), K) if K is not None else None
        if not S.xob("accessor", "combined echos", e is not None and not e[2] and e[0] is src and x.has(F(A1, "combined_echos"), K) is True, x, clip(pretty(v), 300)):
            continue
        k = ekey0(src)
        for y, key, val in e[1]:
            S.xob("accessor", "combined echos entry", key is k and decoded(y, val, F(get(src, k), "0"), "EchoBroadcast"), y, clip(pretty(val), 300))
    S.need("accessor", "combined echos", n, 1)


def plain_id(x):
    """the round identifier of the number passed to an accessor"""
    for t in list(x.facts) + [x.val]:
        t = t if isinstance(t, T) else t[1]
        for u in subterms(t):
            if isadt(u, "RoundId"):
                if F(u, "round") is A2 and F(u, "is_echo") is FALSE and F(u, "groups").op in ("empty", "arr") and not any(
                        c.a for c in [F(u, "groups")] if c.op == "arr" and c.a[0]):
                    return u
                return None
    return None


def decoded(x, val, pay, kind):
    """val is the payload `pay` read as the declared type of that kind"""
    some = x.dec(isvar(pay, "Some"))
    src = val
    while src.op == "fld" and src.a[1] in ("Ok",):
        src = src.a[0]
    if some is True:
        t = deser_type(src)
        return t is not None and t.endswith("Round<Id>>::" + kind) and any(u is somev(pay) for u in subterms(src))
    # an empty part is read as the marker for "no message"
    return some is False and any(isadt(u, "NoMessage") for u in subterms(val))


def accessor(S, name, root, loc, rt):
    n = 0
    for x in S.run(root):
        v = x.ok()
        if v is None:
            continue
        n += 1
        K = plain_id(x) if rt == "PR" else None
        if rt == "PR" and not S.xob("accessor", name + " round", K is not None and x.has(F(A1, "previous_messages"), K) is True, x):
            continue
        o = loc(K)
        S.xob("accessor", name + " present", x.yes(isvar(o, "Some")), x)
        S.xob("accessor", name, decoded(x, v, F(somev(o), "0"), KIND[name.split()[-1]]), x, clip(pretty(v), 300))
    S.need("accessor", name, n, 1)
