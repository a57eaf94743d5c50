"""C07: readiness of a round; C09: bookkeeping of processed messages."""
from lib import *
from session_rules import *

CF = SESSION + "can_finalize"
APM = SESSION + "add_processed_message"
STILL, EXP, PAY, PROC = (F(A2, n) for n in ("still_have_not_sent_messages", "expecting_messages_from", "payloads", "processing"))


def may_contribute(x, k):
    """three valued: the sender k, having no outcome yet, may still contribute"""
    p = x.has(PROC, k)
    if p is True:
        return True
    b = fault_known(x, k)
    if b is False:
        return True
    if b is True and p is False:
        return False
    return None


FAULTS = (F(A1, "transcript.provable_errors"), F(A1, "transcript.unprovable_errors"), F(A2, "provable_errors"), F(A2, "unprovable_errors"))


def fault_known(x, k):
    ds = [x.has(m, k) for m in FAULTS]
    return True if any(d is True for d in ds) else False if all(d is False for d in ds) else None


def all_accepted(x):
    """every expected sender's payload is known to be present"""
    for seq, alts in foralls(x):
        b = base_sets(seq)
        if b is not EXP:
            continue
        k = ekey0(b)
        ys = [under(x, alt) for alt in alts]
        if all(y is None or y.has(PAY, k) is True for y in ys):
            return True
    return False


def someone_missing(x):
    for k in witnesses(x):
        if x.has(EXP, k) is True and x.has(PAY, k) is False:
            return True
    return False


def someone_may_contribute(x):
    for k in witnesses(x):
        if x.has(STILL, k) is True and may_contribute(x, k) is True:
            return True
    return False


def nobody_may_contribute(x):
    if x.dec(T_("isempty", STILL)) is True:
        return True
    for seq, alts in foralls(x):
        b = base_sets(seq)
        if b is not STILL and b is not EXP:
            continue
        k = ekey0(b)
        good = True
        for alt in alts:
            y = under(x, alt)
            if y is None or y.has(STILL, k) is False or may_contribute(y, k) is False:
                continue
            good = False
        if good:
            return True
    return False


@check("C07")
def c07(S):
    seen = {}
    for x in S.run(CF):
        if x.kind != "ret" or x.val.op != "adt" or x.val.a[1] not in ("Yes", "NotYet", "Never"):
            S.xob("known-answer", "can_finalize", False, x)
            continue
        v = x.val.a[1]
        seen[v] = seen.get(v, 0) + 1
        if v == "Yes":
            S.xob("ready-only-if-all-accepted", v, all_accepted(x), x, "ready although an expected sender's message may be missing")
        else:
            S.xob("not-ready-only-if-missing", v, someone_missing(x), x, "not ready although every expected message may have been accepted")
            if v == "NotYet":
                S.xob("pending-only-if-possible", v, someone_may_contribute(x), x, "pending although nobody may contribute any more")
            else:
                S.xob("never-only-if-impossible", v, nobody_may_contribute(x), x, "declared unfinalizable although somebody may still contribute")
    S.need("known-answer", "different answers", len(seen), 3, exact=True)
    # what these sets stand for
    for x in S.run(SESSION + "make_accumulator"):
        if x.kind != "ret":
            continue
        e = F(A1, "communication_info.expecting_messages_from")
        S.xob("initial-sets", "expected", F(x.val, "expecting_messages_from") is e, x)
        S.xob("initial-sets", "without outcome", F(x.val, "still_have_not_sent_messages") is e, x)
        S.xob("initial-sets", "payloads", F(x.val, "payloads").op == "empty", x)
    frame(S, ("expecting_messages_from",), "expected-set-kept", exempt=())
    frame(S, ("still_have_not_sent_messages", "payloads"), "outcome-sets-kept", exempt=(APM,))
    n = 0
    frm = sender()
    for x in S.run(APM):
        if x.kind != "ret" or x.ok() is None:
            continue
        n += 1
        post = x.post(2)
        s1, p1 = F(post, "still_have_not_sent_messages"), F(post, "payloads")
        S.xob("outcome-recorded", "sender leaves the pending set", s1.op == "rem" and s1.a[0] is STILL and x.same(s1.a[1], frm), x)
        good = processed(x) == "Ok"
        if good:
            S.xob("outcome-recorded", "accepted", p1.op == "ins" and p1.a[0] is PAY and x.same(p1.a[1], frm), x)
        else:
            S.xob("outcome-recorded", "failed", p1 is PAY, x)
        S.xob("outcome-recorded", "processing marks kept", only_inserted(x, PROC, F(post, "processing")), x)
    S.need("outcome-recorded", "exits", n, 40)
    for x in S.run(PP):
        if x.kind != "ret":
            continue
        S.xob("processing-marked", "handed out", all(k != "process" or x.has(F(x.post(2), "processing"), A3) is True for k, _ in handed(x)), x)


PROCESSED = F(A3, "processed")


def sender():
    return F(A3, "message.from")


def processed(x):
    """which outcome of message processing this exit is about"""
    if x.yes(isvar(PROCESSED, "Ok")):
        return "Ok"
    if not x.no(isvar(PROCESSED, "Ok")) and not x.yes(isvar(PROCESSED, "Err")):
        return None
    e = errv(PROCESSED)
    for v in ("InvalidDirectMessage", "InvalidEchoBroadcast", "InvalidNormalBroadcast", "Protocol", "Unprovable", "Echo", "Local"):
        if variant_is(x, e, v):
            if v == "Echo":
                i = fld(e, "Echo", "0")
                for w in ("InvalidEcho", "MismatchedBroadcasts"):
                    if variant_is(x, i, w):
                        return w
                return None
            return v
    return None


def variant_is(x, t, v):
    return x.dec(isvar(t, v)) is True


MSG = F(A3, "message")
PARTKIND = {"InvalidDirectMessage": "direct_message", "InvalidEchoBroadcast": "echo_broadcast", "InvalidNormalBroadcast": "normal_broadcast"}
DATA = ("payloads", "artifacts", "cached", "echo_broadcasts", "normal_broadcasts", "direct_messages")


def part_copy(x, t, src):
    """t carries exactly the signature and the content of the part src"""
    return same_value(x, F(t, "signature"), F(src, "signature")) and same_value(x, F(t, MWM), F(src, MWM))


def signed_parts(t):
    return [u for u in subterms(t) if isadt(u, "SignedMessagePart") or isadt(u, "VerifiedMessagePart")]


def payload_of(part):
    return F(part, MWM + ".message.0")


@check("C09")
def c09(S):
    cnt = {}
    e = errv(PROCESSED)
    frm = sender()
    for x in S.run(APM):
        if x.kind != "ret":
            continue
        v = processed(x)
        post = x.post(2)
        if x.ok() is None:
            why = x.has(PAY, frm) is True or x.has(STILL, frm) is False or (v == "Local" and x.err() is fld(e, "Local", "0")) \
                or (v == "Protocol" and data_unavailable(x))
            S.xob("failure-recorded", "error return", why, x, "the outcome of processing a message is neither recorded nor a local failure")
            continue
        if not S.xob("outcome-known", "exit", v is not None, x, "the exit does not distinguish the outcomes of message processing"):
            continue
        cnt[v] = cnt.get(v, 0) + 1
        p0, u0 = errors_of(A2)
        p1, u1 = errors_of(post)
        S.xob("outcome-known", "not lost", v != "Local", x, "a local failure is swallowed")
        if v == "Ok":
            S.xob("success-no-fault", v, p0 is p1 and u0 is u1, x, "a successfully processed message changes the recorded faults")
            pl = F(post, "payloads")
            S.xob("success-recorded", "payload", pl.op == "ins" and pl.a[0] is PAY and x.same(pl.a[1], frm)
                  and pl.a[2] is okv(PROCESSED), x)
            for p in PARTS:
                fn = p + "s"
                src = F(MSG, p)
                m0, m1 = F(A2, fn), F(post, fn)
                d = x.dec(isvar(payload_of(src), "Some"))
                if d is True:
                    good = m1.op == "ins" and m1.a[0] is m0 and x.same(m1.a[1], frm) and part_copy(x, m1.a[2], src)
                elif d is False:
                    good = m1 is m0
                else:
                    good = False
                S.xob("success-recorded", p, good, x, "the non-empty part `%s` is not recorded (exactly) under the sender" % p)
            S.xob("success-recorded", "nothing else", not set(changed(A2, post, ("artifacts", "cached"))), x)
            continue
        ch = changed(A2, post, DATA)
        S.xob("failure-contributes-nothing", v, not ch, x, "a failed message changes %s" % ch)
        if v == "Unprovable":
            S.xob("unprovable-recorded", v, p0 is p1 and u1.op == "ins" and u1.a[0] is u0 and x.same(u1.a[1], frm)
                  and u1.a[2] is fld(e, "Unprovable", "0"), x)
            continue
        guilty = frm
        if v == "MismatchedBroadcasts":
            guilty = F(fld(fld(e, "Echo", "0"), "MismatchedBroadcasts", "0"), "guilty_party")
        S.xob("one-fault", v, u0 is u1, x, "an unprovable fault is recorded as well")
        if p1 is p0:
            S.xob("one-fault", v + " already reported", x.has(p0, guilty) is True, x, "no evidence is recorded")
            continue
        good = p1.op == "ins" and p1.a[0] is p0
        S.xob("one-fault", v, good, x, "not exactly one piece of evidence is recorded")
        if not good:
            continue
        S.xob("right-party", v, x.same(p1.a[1], guilty), x, "the evidence is filed under another party")
        ev = p1.a[2]
        S.xob("right-party", v + " label", x.same(F(ev, "guilty_party"), guilty), x, "the evidence names another party")
        en = F(ev, "evidence")
        S.xob("right-kind", v, en.op == "adt" and en.a[1] == v, x, "evidence of another kind: %s" % clip(pretty(en), 200))
        if v in PARTKIND:
            ps = signed_parts(en)
            S.xob("right-data", v, len(ps) == 1 and part_copy(x, ps[0], F(MSG, PARTKIND[v])), x,
                  "the evidence does not carry exactly the offending part")
        elif v == "InvalidEcho":
            ps = signed_parts(en)
            S.xob("right-data", v, len(ps) == 1 and part_copy(x, ps[0], F(MSG, "normal_broadcast"))
                  and any(t is fld(fld(e, "Echo", "0"), v, "0") for t in subterms(en)), x)
        elif v == "MismatchedBroadcasts":
            S.xob("right-data", v, any(t is fld(fld(e, "Echo", "0"), v, "0") for t in subterms(en)), x)
        else:
            ser = [t for t in subterms(en) if isapp(t, "DynProtocolError::serialize")]
            S.xob("right-data", v, len(ser) == 1 and ser[0].a[1][0] is F(fld(e, "Protocol", "0"), "error"), x,
                  "the evidence does not carry the serialized protocol error")
            for t in signed_parts(en):
                S.xob("right-data", "own part", any(part_copy(x, t, F(MSG, p)) for p in PARTS)
                      or not any(u is A3 for u in subterms(t)), x)
    for v in ("Ok", "InvalidDirectMessage", "InvalidEchoBroadcast", "InvalidNormalBroadcast", "Protocol", "Unprovable",
              "InvalidEcho", "MismatchedBroadcasts"):
        S.need("outcome-known", v, cnt.get(v, 0), 1)
    for x in S.run(SESSION + "process_message"):
        if x.kind != "ret":
            continue
        m = F(x.val, "message")
        S.xob("processed-with-its-message", "message", m is A2, x)
        r = F(x.val, "processed")
        good = isapp(r, "DynRound::receive_message") and r.a[1][0] is F(A1, "round") and x.same(r.a[1][2], F(A2, "from"))
        S.xob("processed-with-its-message", "round and sender", good, x)
        if good:
            pm = r.a[1][3]
            for p in PARTS:
                S.xob("processed-with-its-message", p, same_value(x, F(pm, p), F(A2, p + "." + MWM + ".message")), x)
    frame(S, ("payloads", "echo_broadcasts", "normal_broadcasts", "direct_messages"), "accepted-data-kept", exempt=(APM,))


def data_unavailable(x):
    """a message the protocol asked for is not available, or the error could not be serialized"""
    for k, v in x.facts.items():
        if not isinstance(k, T):
            continue
        if v is False and k.op == "isvar" and isapp(k.a[0], "DynProtocolError::serialize") and k.a[1] == "Ok":
            return True
        if v is False and k.op == "has" and any(t is F(A1, "transcript") for t in subterms(k.a[0])):
            return True
        if v is True and k.op == "has" and any(t is F(A1, "transcript") for t in subterms(k.a[0])):
            pass
        if v is True and k.op == "fld" and k.a[2] == "is_echo":
            return True
    return False
