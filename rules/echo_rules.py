"""C13: when an echo round happens and what it preserves; C14: the content of echo rounds."""
from lib import *
from session_rules import *
from message_rules import template, fieldsof, kids, new_sessions, payload_of_, value_at, has_entry, formats_same

ER = lambda S, m: impl_fn(S, "EchoRound", "DynRound", m)


def set_is(x, t, base, extra=()):
    """the set t is base plus the given elements"""
    m = members(t)
    return m is not None and m == frozenset([("set", base)] + [("elem", e) for e in extra])


@check("C13")
def c13(S):
    seen = {}
    for site, x, s in new_sessions(S):
        ti, ci = next_ids(s)
        p = F(ci, "echo_round_participation")
        kind = None
        for v in ("Default", "Send", "Receive"):
            if x.yes(isvar(p, v)):
                kind = v
        info = F(s, "echo_round_info")
        on = x.dec(isvar(info, "Some"))
        if not S.xob("participation-known", site, kind is not None or on is None, x, "the declared participation is not taken into account"):
            continue
        sends = x.dec(isvar(payload_of_(F(s, "echo_broadcast")), "Some"))
        key = "%s %s" % (site, kind)
        if kind == "Send":
            S.xob("echo-iff-declared", key, on is False, x, "an echo round although the node only sends")
        elif kind == "Default":
            S.xob("echo-iff-declared", "%s sending=%s" % (key, sends), sends is not None and on is sends, x,
                  "an echo round must happen exactly if an echo broadcast is sent")
        elif kind == "Receive":
            S.xob("echo-iff-declared", key, on is True, x, "no echo round although the node receives broadcasts to echo")
        seen[kind, on] = seen.get((kind, on), 0) + 1
        if on is not True:
            continue
        i = somev(info)
        dst, exp, cov = (F(i, n) for n in ("message_destinations", "expecting_messages_from", "expected_echos"))
        main_exp = F(ci, "expecting_messages_from")
        if kind == "Default":
            t = F(ci, "message_destinations")
            S.xob("echo-parties", key + " destinations", dst is t, x)
            S.xob("echo-parties", key + " senders", exp is t, x)
            me = F(s, "verifier")
            S.xob("echo-coverage", key, set_is(x, cov, main_exp, (me,)), x, "covers %s" % clip(pretty(cov), 300))
        elif kind == "Receive":
            t = fld(p, "Receive", "echo_targets")
            S.xob("echo-parties", key + " destinations", dst is t, x)
            S.xob("echo-parties", key + " senders", exp is t, x)
            S.xob("echo-coverage", key, cov is main_exp, x, "covers %s" % clip(pretty(cov), 300))
        S.xob("own-identity", key, F(s, "verifier") is app("signature::keypair::Keypair::verifying_key", F(s, "signer"))
              or F(s, "verifier") is F(A1, "verifier"), x)
    for k in (("Default", True), ("Default", False), ("Send", False), ("Receive", True)):
        S.need("participation-known", "%s echo=%s" % k, seen.get(k, 0), 2)
    # the transition itself
    rid = round_id_of(S)
    e1 = e0 = 0
    fin = DYN + "finalize"
    for x in S.run(FIN):
        if x.kind != "ret":
            continue
        called = finalize_calls(x)
        on = x.dec(isvar(F(A1, "echo_round_info"), "Some"))
        if x.ok() is not None or called:
            S.xob("echo-taken-when-due", "decided", on is not None, x, "the round is finalized without looking at whether an echo round is due")
        if on is True:
            S.xob("echo-taken-when-due", "main round not finalized yet", not called, x)
        if on is True and x.ok() is not None:
            e1 += 1
            s = unwrap_session(fld(x.ok(), "AnotherRound", "session"))
            er = find_adt(F(s, "round"), "EchoRound")
            if not S.xob("echo-taken-when-due", "next round", x.ok().a[1] == "AnotherRound" and er is not None, x):
                continue
            S.xob("echo-round-data", "round info", F(er, "echo_round_info") is somev(F(A1, "echo_round_info")), x)
            S.xob("echo-round-data", "main round", F(er, "main_round") is F(A1, "round"), x)
            S.xob("echo-round-data", "payloads", F(er, "payloads") is F(A3, "payloads"), x)
            S.xob("echo-round-data", "artifacts", F(er, "artifacts") is F(A3, "artifacts"), x)
            S.xob("echo-round-data", "verifier", F(er, "verifier") is F(A1, "verifier"), x)
            eb = F(er, "echo_broadcasts")
            kept = value_at(x, F(s, "transcript.echo_broadcasts"), rid)
            S.xob("echo-round-data", "broadcasts", kept is not None and eb is kept, x, "the echo round does not hold the broadcasts of the main round")
            ci = F(er, "communication_info")
            i = somev(F(A1, "echo_round_info"))
            S.xob("echo-round-parties", "destinations", F(ci, "message_destinations") is F(i, "message_destinations"), x)
            S.xob("echo-round-parties", "senders", F(ci, "expecting_messages_from") is F(i, "expecting_messages_from"), x)
            S.xob("no-echo-of-echo", "participation", F(ci, "echo_round_participation").op == "adt" and
                  F(ci, "echo_round_participation").a[1] in ("Default", "Send"), x)
        elif on is False and x.ok() is not None:
            e0 += 1
            S.xob("finalized-with-own-data", "main", len(called) == 1 and fin_args(x, called[0], F(A1, "round"), F(A3, "payloads"), F(A3, "artifacts")), x)
            if x.ok().a[1] == "AnotherRound" and called:
                s = unwrap_session(fld(x.ok(), "AnotherRound", "session"))
                S.xob("finalized-with-own-data", "next round", F(s, "round") is fld(okv(called[0]), "AnotherRound", "0"), x)
    S.need("echo-taken-when-due", "exits into an echo round", e1, 2)
    S.need("finalized-with-own-data", "exits", e0, 2)
    for x in S.run(ER(S, "finalize")):
        c = finalize_calls(x)
        S.xob("main-finalized-after-echo", "finalize", x.kind == "ret" and len(c) == 1 and x.res is c[0]
              and fin_args(x, c[0], F(A1, "main_round"), F(A1, "payloads"), F(A1, "artifacts")), x)
    for x in S.run(ER(S, "communication_info")):
        S.xob("echo-round-parties", "reported", x.kind == "ret" and x.val is F(A1, "communication_info"), x)
    for x in S.run(ER(S, "make_echo_broadcast")):
        v = x.ok()
        S.xob("no-echo-of-echo", "broadcast", v is not None and F(v, "0").op == "adt" and F(v, "0").a[1] == "None", x)


def fin_args(x, c, rnd, pay, art):
    a = c.a[1]
    return strip_box(a[0]) is rnd and a[2] is pay and a[3] is art


def strip_box(t):
    while isadt(t, "Box") or isadt(t, "BoxedRound"):
        t = t.a[3][0]
    return t


def find_adt(t, name):
    for u in subterms(t):
        if isadt(u, name):
            return u
    return None


def finalize_calls(x):
    r = []
    for t in list(x.facts) + ([x.val] if x.val is not None else []):
        if isinstance(t, T):
            for u in subterms(t):
                if isapp(u, DYN + "finalize") and u not in r:
                    r.append(u)
    for e in x.st.events():
        if getattr(e, "ret", None) is not None and isapp(e.ret, DYN + "finalize") and e.ret not in r:
            r.append(e.ret)
    return r


# ---------------------------------------------------------------- C14
def content_hash(x, t, part):
    """t is the content hash of the echo broadcast `part`"""
    if not (t.op == "digest" or (t.op == "app" and t.a[0] == "digest")):
        return False
    tm = template(x, t.a[0], sym("none"), payload_of_(part))
    if tm is None:
        return False
    if ("payload",) in tm:
        return True
    return x.no(isvar(payload_of_(part), "Some"))


@check("C14")
def c14(S):
    EB, ME = F(A1, "echo_broadcasts"), F(A1, "verifier")
    n = 0
    for x in S.run(ER(S, "make_normal_broadcast")):
        v = x.ok()
        if x.kind == "panic":
            S.xob("pack", "panic", False, x)
            continue
        if v is None:
            continue
        m = find_adt(v, "EchoRoundMessage")
        if not S.xob("pack", "message", m is not None, x):
            continue
        e = entries(x, F(m, "message_hashes"))
        if not S.xob("pack", "map", e is not None, x, "cannot tell what is echoed: %s" % clip(pretty(m), 400)):
            continue
        src, ins_, skip = e
        base, gone = without(src)
        S.xob("pack", "source", base is EB and all(x.same(g, ME) for g in gone), x, "not built from the broadcasts of the main round")
        k = ekey0(src)
        for y, key, val in ins_:
            n += 1
            part = get(src, k)
            part2 = get(EB, k)
            S.xob("pack", "key", key is k, y, "filed under another party")
            S.xob("pack", "not own", bool(gone) or y.no(eq(k, ME)), y, "the node's own broadcast is echoed as well")
            good = any(same_value(y, F(val, "signature"), F(p, "signature")) and
                       same_value(y, F(val, "metadata"), F(p, MWM + ".metadata")) and
                       content_hash(y, F(val, "message_part_hash"), p) for p in (part, part2))
            S.xob("pack", "entry", good, y, "the entry is not the signed hash of that broadcast: %s" % clip(pretty(val), 400))
        for y in skip:
            S.xob("pack", "complete", y.yes(eq(k, ME)) and not gone, y, "a broadcast of another party is not echoed")
    S.need("pack", "entries", n, 1)
    receive_rules(S)


def receive_rules(S):
    EB = F(A1, "echo_broadcasts")
    cov = F(A1, "echo_round_info.expected_echos")
    cnt = {}
    for x in S.run(ER(S, "receive_message")):
        MH = None
        for f in x.facts:
            if isinstance(f, T) and f.op == "isvar" and isapp(f.a[0], "deserialize") and "EchoRoundMessage" in pretty(f.a[0].a[1][-1]) and \
                    any(u is F(A4, "normal_broadcast") for u in subterms(f.a[0])):
                MH = F(okv(f.a[0]), "message_hashes")
                MH = F(MH, "0")
        v = x.ok()
        if v is not None:
            cnt["ok"] = cnt.get("ok", 0) + 1
            if not S.xob("accepted-set", "message", MH is not None, x):
                continue
            S.xob("accepted-set", "no missing entry", complete(x, MH, cov), x, "a party whose broadcast must be echoed may be missing")
            ys = forall_states(x, MH)
            S.xob("accepted-set", "entries examined", bool(ys), x)
            for y in ys:
                k = ekey0(MH)
                ent = get(MH, k)
                S.xob("accepted-set", "no extra entry", expected_entry(y, cov, k), y, "an entry that is not expected may be accepted")
                S.xob("accepted-entry", "signature", entry_verified(y, k, ent), y, "an entry's signature may not verify under its originator's key")
                d = get(EB, k)
                S.xob("accepted-entry", "known", y.has(EB, k) is True, y)
                S.xob("accepted-entry", "metadata", same_metadata(y, F(ent, "metadata"), F(d, MWM + ".metadata")), y, "other metadata than the broadcast received directly")
                S.xob("accepted-entry", "content", hash_equal(y, F(ent, "message_part_hash"), d) is True, y, "may not be the hash of the broadcast received directly")
            S.xob("accepted-set", "contributes no payload", "Payload" in v.a[0] if v.op == "adt" else False, x)
            continue
        e = x.err()
        if x.kind != "ret" or e is None:
            continue
        var = e.a[1] if e.op == "adt" else None
        if var == "Unprovable":
            cnt[var] = cnt.get(var, 0) + 1
            S.xob("unprovable-iff-incomplete", var, MH is not None and incomplete(x, MH, cov), x,
                  "reported although no entry is known to be missing or extra")
        elif var == "Echo":
            er = find_adt(e, "EchoRoundError")
            w = er.a[1] if er is not None else None
            cnt[w] = cnt.get(w, 0) + 1
            k = ekey0(MH)
            ent, d = get(MH, k), get(EB, k)
            if w == "InvalidEcho":
                who = F(fld(er, w, "0"), "invalid_echo_sender")
                S.xob("fault-of-sender", "names the entry", x.same(who, k), x)
                why = entry_unverifiable(x, k, ent) or x.no(eq(F(ent, "metadata"), F(d, MWM + ".metadata"))) \
                    or any(x.no(eq(F(ent, "metadata." + n), F(d, MWM + ".metadata." + n))) for n in ("session_id", "round_id"))
                S.xob("fault-of-sender", "justified", why, x, "nothing is known to be wrong with the entry")
            elif w == "MismatchedBroadcasts":
                mm = fld(er, w, "0")
                S.xob("fault-of-originator", "names the originator", x.same(F(mm, "guilty_party"), k), x)
                S.xob("fault-of-originator", "carries both", F(mm, "we_received") is d and F(mm, "echoed_to_us") is ent, x,
                      "the evidence does not carry the two contradicting messages")
                S.xob("fault-of-originator", "entry signed", entry_verified(x, k, ent), x, "the entry is not known to be signed by the originator")
                S.xob("fault-of-originator", "same metadata", same_metadata(x, F(ent, "metadata"), F(d, MWM + ".metadata")), x)
                S.xob("fault-of-originator", "different", hash_equal(x, F(ent, "message_part_hash"), d) is False, x)
            else:
                S.xob("known-fault", str(w), False, x)
            ys = forall_states(x, MH)
            for y in ys:
                S.xob("fault-only-for-expected", w, expected_entry(y, cov, k), y, "an unexpected entry is blamed on somebody")
    for k, m in (("ok", 1), ("Unprovable", 2), ("InvalidEcho", 3), ("MismatchedBroadcasts", 1)):
        S.need("accepted-set" if k == "ok" else "known-fault", k, cnt.get(k, 0), 1 if k != "ok" else m)


def expected_entry(y, cov, k):
    """k is an expected party other than the sender"""
    r = y.dec(has(rem(cov, A3), k))
    if r is None:
        r = y.has(rem(cov, A3), k)
    if r is None:
        a, b = y.has(cov, k), y.dec(eq(k, A3))
        r = True if (a is True and b is False) else False if (a is False or b is True) else None
    if r is None and sets_equal(y, None, cov):
        return True
    return r is True


def sets_equal(x, MH, cov):
    for f, v in x.facts.items():
        if v is True and isinstance(f, T) and f.op == "eq":
            for a, b in (f.a, f.a[::-1]):
                base, gone = without(b)
                if base is cov and len(gone) == 1 and gone[0] is A3:
                    m = members(a)
                    if m is not None and (MH is None or m == frozenset([("set", MH)])):
                        return True
    return False


def complete(x, MH, cov):
    if sets_equal(x, MH, cov):
        return True
    k = ekey0(cov)
    for y in forall_states(x, cov):
        if y.yes(eq(k, A3)):
            continue
        if y.has(MH, k) is not True:
            return False
    return True


def incomplete(x, MH, cov):
    """some expected entry is known to be missing or some entry is known to be extra"""
    for f, v in x.facts.items():
        if not isinstance(f, T):
            continue
        if f.op == "isempty" and v is False:
            e = elements(x, f.a[0]) if f.a[0].op == "fold" else None
            if e is None or e[0].op != "seq":
                continue
            src = e[0].a[0]
            k = ekey0(src)
            base, gone = without(src)
            if base is cov and all(g is A3 for g in gone) and e[1] and all(
                    (gone or y.no(eq(k, A3))) and y.has(MH, k) is False for y, _ in e[1]):
                return True
            m = members(src)
            if m == frozenset([("set", MH)]) and e[1] and all(not_expected(y, cov, k) for y, _ in e[1]):
                return True
        if f.op == "eq" and v is False:
            for a, b in (f.a, f.a[::-1]):
                base, gone = without(b)
                if base is cov and len(gone) == 1 and members(a) == frozenset([("set", MH)]):
                    return True
    for k in witnesses(x):
        if x.has(MH, k) is True and not_expected(x, cov, k):
            return True
        if x.has(MH, k) is False and expected_entry(x, cov, k):
            return True
    return False


def not_expected(y, cov, k):
    return y.dec(has(rem(cov, A3), k)) is False or y.has(cov, k) is False or y.yes(eq(k, A3))


def entry_verified(y, k, ent):
    for v, h, s in verify_facts(y):
        if y.same(v, k) and sig_of(s) is not None and y.same(sig_of(s), F(ent, "signature.0")) and h.op == "hash":
            tm = template(y, h, F(ent, "metadata"), None, F(ent, "message_part_hash"))
            if tm is not None and any(p[0] == "parthash" for p in tm) and ("kind", "EchoBroadcast") in tm:
                return True
    return False


def entry_unverifiable(x, k, ent):
    sg = F(ent, "signature.0")
    for f, v in x.facts.items():
        if v is False and isinstance(f, T) and f.op == "isvar" and f.a[1] == "Ok" and f.a[0].op == "app":
            a = f.a[0]
            if isapp(a, VERIFY) and x.same(a.a[1][0], k) and sig_of(a.a[1][2]) is sg:
                return True
            if isapp(a, DESER) and isapp(a.a[1][0], WF_DESER) and a.a[1][0].a[1][0] is sg:
                return True
    return False


def hash_equal(y, h, part):
    """three valued: h is known to be (not to be) the content hash of `part`"""
    for f, v in y.facts.items():
        if isinstance(f, T) and f.op == "eq":
            for a, b in (f.a, f.a[::-1]):
                if (a is h or y.same(a, h)) and content_hash(y, b, part):
                    return v
    return None
