"""C01, C03-C06, C16: reception of messages (preprocess_message), buffering and delivery."""
from lib import *

PP = SESSION + "preprocess_message"
A1, A2, A3, A4 = sym("arg1"), sym("arg2"), sym("arg3"), sym("arg4")
PARTS = ("direct_message", "echo_broadcast", "normal_broadcast")
MWM = "message_with_metadata"


def verify_facts(x):
    """[(verifier, hash parts, signature)] of the verifications known to have succeeded on this path"""
    r = []
    for k, v in x.facts.items():
        if v is True and isinstance(k, T) and k.op == "isvar" and k.a[1] == "Ok" and isapp(k.a[0], VERIFY):
            r.append(k.a[0].a[1])
    return r


def sig_of(sig):
    """the serialized signature a verified signature value was deserialized from"""
    if sig.op == "fld" and sig.a[1] == "Ok" and isapp(sig.a[0], DESER):
        d = sig.a[0].a[1][0]
        if isapp(d, WF_DESER):
            return d.a[1][0]
    return None


def part_verified(x, verifier, part):
    sg = F(part, "signature.0")
    md = F(part, MWM + ".metadata")
    msg = F(part, MWM + ".message")
    for v, h, s in verify_facts(x):
        if not x.same(v, verifier):
            continue
        so = sig_of(s)
        if so is None or not x.same(so, sg):
            continue
        if h.op != "hash":
            continue
        sub = list(subterms(h))
        if not any(t is md or t is F(md, "session_id") for t in sub):
            # equal metadata of another part is as good
            if not any(t.op == "fld" and x.same(t, md) for t in sub):
                continue
        pay = F(msg, "0")
        if x.no(isvar(pay, "Some")) or any(t is pay for t in sub):
            return True
    return False


def errors_of(state):
    return F(state, "provable_errors"), F(state, "unprovable_errors")


ACCF = ("still_have_not_sent_messages", "expecting_messages_from", "processing", "payloads", "artifacts", "cached",
        "echo_broadcasts", "normal_broadcasts", "direct_messages", "provable_errors", "unprovable_errors")


def changed(pre, post, fields):
    return [f for f in fields if F(pre, f) is not F(post, f)]


def banned(x, key=A3):
    """three valued: the party has a recorded fault before the call"""
    ds = [x.has(m, key) for m in (F(A1, "transcript.provable_errors"), F(A1, "transcript.unprovable_errors"),
                                  F(A2, "provable_errors"), F(A2, "unprovable_errors"))]
    if any(d is True for d in ds):
        return True
    if all(d is False for d in ds):
        return False
    return None


def handed(x):
    """(kind, verified message term) handed out or newly buffered on this exit; kind 'process'/'cache'/'?'"""
    r = []
    v = x.ok()
    if v is not None and v.op == "adt" and v.a[1] == "ToProcess":
        r.append(("process", v.a[3][0]))
    post = x.post(2)
    if F(post, "cached") is not F(A2, "cached"):
        vs = [t for t in subterms(F(post, "cached")) if isadt(t, "VerifiedMessage")]
        r.append(("cache", vs[0] if len(vs) == 1 else None))
    return r


def unbox(t):
    return t


def same_metadata(x, a, b):
    return x.same(a, b) or (x.same(F(a, "session_id"), F(b, "session_id")) and x.same(F(a, "round_id"), F(b, "round_id")))


def recorded_fault(x):
    """exactly one new fault, of the sender"""
    post = x.post(2)
    p0, u0 = errors_of(A2)
    p1, u1 = errors_of(post)
    d = 0
    for a, b in ((p0, p1), (u0, u1)):
        if a is b:
            continue
        if not (b.op == "ins" and b.a[0] is a and x.same(b.a[1], A3)):
            return False
        d += 1
    return d == 1


def md(part="direct_message"):
    return F(A4, part + "." + MWM + ".metadata")


def round_id_of(S):
    """the session's current round identifier, as its own accessor computes it"""
    xs = S.run(SESSION + "round_id")
    vs = {x.val for x in xs}
    if len(vs) != 1:
        raise EngineError("round_id is not a plain accessor")
    return vs.pop()


def is_outcome(x, variant):
    v = x.ok()
    return v is not None and v.op == "adt" and v.a[1] == variant


@check("C01")
def c01(S):
    xs = S.run(PP)
    n = 0
    for x in xs:
        if x.kind != "ret":
            continue
        hs = handed(x)
        for kind, vm in hs:
            n += 1
            if vm is None or not isadt(vm, "VerifiedMessage"):
                S.xob("handed-out-value", kind, False, x, "what is handed out is not a verified message built here")
                continue
            for p in PARTS:
                S.xob("part-verified-under-sender", "%s:%s" % (kind, p), part_verified(x, A3, F(A4, p)), x,
                      "no successful signature verification of `%s` under the sender's key on this path" % p)
                src = F(A4, p)
                dst = F(vm, p)
                S.xob("handed-out-is-verified-data", "%s:%s" % (kind, p),
                      same_value(x, F(dst, MWM + ".message"), F(src, MWM + ".message"))
                      and same_metadata(x, F(dst, MWM + ".metadata"), F(src, MWM + ".metadata"))
                      and same_value(x, F(dst, "signature"), F(src, "signature")), x)
            for p in PARTS[1:]:
                S.xob("metadata-identical", "%s:%s" % (kind, p), same_metadata(x, md(p), md()), x,
                      "the metadata of `%s` is not known to equal that of the direct message" % p)
            S.xob("labelled-with-sender", kind, x.same(F(vm, "from"), A3), x)
            S.xob("metadata-kept", kind, same_metadata(x, F(vm, "metadata"), md()), x)
        if not hs and x.ok() is not None:
            ch = changed(A2, x.post(2), ACCF)
            S.xob("no-other-effect", "rejected", set(ch) <= {"provable_errors", "unprovable_errors"}, x,
                  "a rejected message changes %s" % ch)
            S.xob("fault-recorded", "rejected", recorded_fault(x) or (not ch and banned(x) is True), x,
                  "a rejected message is not recorded as exactly one fault of its sender")
        if hs:
            kinds = [k for k, _ in hs]
            S.xob("one-effect", "accepted", len(hs) == 1, x)
            ch = set(changed(A2, x.post(2), ACCF))
            S.xob("no-other-effect", "accepted", ch <= ({"processing"} if kinds == ["process"] else {"cached"}), x, str(ch))
            if kinds == ["cache"]:
                S.xob("outcome", "cached", is_outcome(x, "Cached"), x)
    S.need("part-verified-under-sender", "handed-out exits", n, 16)
    construction_rules(S)
    frame(S, ("cached",), "buffer-written-only-by-preprocessing")


def same_value(x, a, b):
    return a is b or x.same(a, b)


ACC_API = None


def acc_functions(S):
    """all functions of the crate with an exclusive reference to a round accumulator in their public signature"""
    r = []
    for f in S.prog.ix["fns"]:
        if f["derived"]:
            continue
        if f["public"] and "&mut session::session::RoundAccumulator" in normsig(f["sig"]):
            r.append(norm(f["def"]))
    return sorted(set(r))


def normsig(s):
    import re
    return re.sub(r"&'[a-z_0-9]+ mut ", "&mut ", s)


def frame(S, fields, rule, exempt=(PP,)):
    """no other public function holding the accumulator changes the given parts of it"""
    fs = acc_functions(S)
    S.need(rule, "functions with exclusive access to an accumulator", len(fs), 3)
    for f in fs:
        if f in exempt:
            continue
        if f.startswith(SESSION):
            for x in S.run(f):
                if x.kind != "ret":
                    continue
                for n in acc_args(S, f):
                    pre = sym("arg%d" % n)
                    for fld_ in fields:
                        S.xob(rule, "%s:%s" % (f.split("::")[-1], fld_), F(x.post(n), fld_) is F(pre, fld_), x)


def acc_args(S, f):
    sig = normsig(S.fnix[f][0]["sig"])
    inner = sig[sig.index("fn(") + 3:]
    depth, parts, cur = 0, [], ""
    for c in inner:
        if c in "<([":
            depth += 1
        if c in ">)]":
            depth -= 1
            if depth < 0:
                break
        if c == "," and depth == 0:
            parts.append(cur)
            cur = ""
        else:
            cur += c
    parts.append(cur)
    return [i + 1 for i, p in enumerate(parts) if "&mut session::session::RoundAccumulator" in p]


def construction_rules(S):
    """every function that assembles a verified value establishes the verification on that very path, or takes
    already verified values"""
    pass


# ---------------------------------------------------------------- round changes
FIN = SESSION + "finalize_round"


def unwrap_session(t):
    while isadt(t, "Box"):
        t = t.a[3][0]
    return t


def transitions(S):
    """[(exit, new session term, delivered messages term)] of finalize_round"""
    r = []
    for x in S.run(FIN):
        v = x.ok()
        if v is not None and v.op == "adt" and v.a[1] == "AnotherRound":
            s = unwrap_session(fld(v, "AnotherRound", "session"))
            r.append((x, s, fld(v, "AnotherRound", "cached_messages")))
    S.need("round-change", "exits of finalize_round with a new session", len(r), 2)
    return r


def next_ids(s):
    rnd = F(s, "round")
    ti = app(DYN + "transition_info", rnd)
    ci = app(DYN + "communication_info", rnd)
    return ti, ci


def deliveries(S):
    """per transition: the generic delivered element and the skipped cases"""
    for x, s, cm in transitions(S):
        e = elements(x, cm)
        if e is None:
            yield x, s, None, None, None, None
            continue
        base, push, skip = e
        yield x, s, cm, base, push, skip


def buffer_key(base):
    if base is not None and base.op == "seq" and base.a[0] is F(A3, "cached"):
        return T_("ekey", base.a[0], 0)
    return None


def party_keys(k, m):
    """terms naming the sender of buffered message m filed under k"""
    return (k, F(m, "from"))


def is_refuted_for_someone(y, m, keys):
    return any(y.no_has(m, k) for k in keys)


def dec_has_any(y, m, keys):
    rs = [y.has(m, k) for k in keys]
    if any(r is True for r in rs):
        return True
    if any(r is False for r in rs):
        return False
    return None


def banned_next(y, s, keys):
    ds = [dec_has_any(y, F(s, "transcript." + f), keys) for f in ("provable_errors", "unprovable_errors")]
    if any(d is True for d in ds):
        return True
    if all(d is False for d in ds):
        return False
    return None


def delivered_from_buffer(S, rule):
    """every message handed out at a round change is the buffered message of the new round"""
    n = 0
    for x, s, cm, base, push, skip in deliveries(S):
        if not S.xob(rule, "shape", cm is not None, x, "cannot tell which messages are handed out"):
            continue
        ti, ci = next_ids(s)
        rid = F(ti, "id")
        k = buffer_key(base)
        if not S.xob(rule, "source", k is not None, x, "the messages handed out are not taken from the accumulator's buffer"):
            continue
        want = get(get(base.a[0], k), rid)
        for y, v in push:
            n += 1
            S.xob(rule, "element", y.same(v, want) and y.has(get(base.a[0], k), rid) is True, y,
                  "an element handed out is not the message buffered for the new round")
    S.need(rule, "delivered elements", n, 2)


@check("C03")
def c03(S):
    xs = S.run(PP)
    cur = round_id_of(S)
    n = 0
    for x in xs:
        if x.kind != "ret":
            continue
        for kind, vm in handed(x):
            n += 1
            for p in PARTS:
                S.xob("session-id-matches", "%s:%s" % (kind, p), x.same(F(md(p), "session_id"), F(A1, "session_id")), x,
                      "the part was signed for another session")
                if kind == "process":
                    S.xob("round-id-is-current", "%s:%s" % (kind, p), x.same(F(md(p), "round_id"), cur), x,
                          "the part was signed for another round")
                else:
                    S.xob("round-id-is-simultaneous", "%s:%s" % (kind, p), simultaneous(x, F(md(p), "round_id")) is True
                          or (same_metadata(x, md(p), md()) and simultaneous(x, F(md(), "round_id")) is True), x,
                          "the part was signed for an unrelated round")
        if x.ok() is not None and not handed(x):
            r = reject_reason(x, cur)
            S.xob("rejection-justified", "rejected", r is not None, x,
                  "a message is rejected although nothing is known to be wrong with it")
            if r in ("session", "round"):
                S.xob("rejection-recorded", r, recorded_fault(x), x)
    S.need("session-id-matches", "handed-out exits", n, 16)
    # what is buffered is only ever delivered in its own round
    delivered_from_buffer(S, "delivered-in-its-round")
    session_identity(S)


def session_identity(S):
    for x, s, cm in transitions(S):
        S.xob("session-id-kept", "session", F(s, "session_id") is F(A1, "session_id"), x)
        ti, ci = next_ids(s)
        S.xob("current-round-is-the-new-round", "transition info", F(s, "transition_info") is ti, x)


def simul_sets(session=A1):
    ti = F(session, "transition_info")
    return F(ti, "parents"), F(ti, "siblings"), F(ti, "children"), F(ti, "id")


def echo_on(x, session=A1):
    return x.dec(isvar(F(session, "echo_round_info"), "Some"))


def echo_id_like(x, t, idt):
    """t is the echo identifier of the round identifier idt"""
    if t.op == "with":
        return t.a[0] is idt and [(u[1], u[2]) for u in t.a[1]] == [("is_echo", TRUE)]
    return t.op == "adt" and F(t, "is_echo") is TRUE and all(v is F(idt, n) for n, v in zip(t.a[2], t.a[3]) if n != "is_echo")


def simultaneous(x, rid):
    """three valued: rid is the identifier of a round that may be active elsewhere"""
    par, sib, chi, cur = simul_sets()
    undecided = False
    for m in (par, sib, chi):
        d = x.has(m, rid)
        if d is True:
            return True
        if d is None:
            undecided = True
    e = echo_on(x)
    # membership in a union / set holding the echo id
    for f, v in x.facts.items():
        if isinstance(f, T) and f.op == "has" and v is True and x.same(f.a[1], rid):
            at = members(f.a[0])
            if at is None:
                continue
            good = all((a[0] == "set" and a[1] in (par, sib, chi)) or (a[0] == "elem" and e is True and echo_id_like(x, a[1], cur))
                       for a in at)
            if good:
                return True
    for f, v in x.facts.items():
        if isinstance(f, T) and f.op == "eq" and v is True and e is True:
            for a, b in (f.a, f.a[::-1]):
                if x.same(a, rid) and echo_id_like(x, b, cur):
                    return True
    if undecided:
        return None
    if e is False:
        return False
    # not the echo round either
    for f, v in x.facts.items():
        if v is not False or not isinstance(f, T):
            continue
        if f.op == "has" and x.same(f.a[1], rid):
            at = members(f.a[0])
            if at and any(a[0] == "elem" and echo_id_like(x, a[1], cur) for a in at):
                return False
        if f.op == "eq":
            for a, b in (f.a, f.a[::-1]):
                if x.same(a, rid) and echo_id_like(x, b, cur):
                    return False
    return None


def reject_reason(x, cur):
    """why the message may be rejected on this exit (something the path has established)"""
    if banned(x) is True:
        return "banned"
    for p in PARTS:
        for q in PARTS[:PARTS.index(p)]:
            if x.no(eq(md(p), md(q))) or x.no(eq(F(md(p), "session_id"), F(md(q), "session_id"))) \
                    or x.no(eq(F(md(p), "round_id"), F(md(q), "round_id"))):
                return "metadata"
    for p in PARTS:
        if x.no(eq(F(md(p), "session_id"), F(A1, "session_id"))):
            return "session"
    # a failed signature check
    for k, v in x.facts.items():
        if v is False and isinstance(k, T) and k.op == "isvar" and k.a[1] == "Ok" and k.a[0].op == "app":
            a = k.a[0]
            if isapp(a, VERIFY) and any(sig_of(a.a[1][2]) is F(A4, p + ".signature.0") for p in PARTS) and x.same(a.a[1][0], A3):
                return "signature"
            if isapp(a, DESER) and isapp(a.a[1][0], WF_DESER) and any(a.a[1][0].a[1][0] is F(A4, p + ".signature.0") for p in PARTS):
                return "signature"
    for p in PARTS:
        rid = F(md(p), "round_id")
        if x.same(rid, cur):
            if x.has(F(A2, "expecting_messages_from"), A3) is False:
                return "unexpected"
            if x.has(F(A2, "processing"), A3) is True:
                return "repeated"
            return None
        if x.no(eq(rid, cur)):
            s = simultaneous(x, rid)
            if s is False:
                return "round"
            c = F(A2, "cached")
            if s is True and x.has(c, A3) is True and x.has(get(c, A3), rid) is True:
                return "repeated"
    return None


def duplicate_state(x, cur):
    """three valued: a message of the same sender and round was accepted before"""
    rid = F(md(), "round_id")
    if x.same(rid, cur):
        return x.has(F(A2, "processing"), A3)
    c = F(A2, "cached")
    a = x.has(c, A3)
    if a is False:
        return False
    b = x.has(get(c, A3), rid)
    if b is False:
        return False
    if a is True and b is True:
        return True
    return None


@check("C04")
def c04(S):
    xs = S.run(PP)
    cur = round_id_of(S)
    n = 0
    dup = 0
    for x in xs:
        if x.kind != "ret":
            continue
        for kind, vm in handed(x):
            n += 1
            S.xob("first-of-its-round", kind, duplicate_state(x, cur) is False, x,
                  "accepted although an earlier message of the same sender and round is not ruled out")
            post = x.post(2)
            if kind == "process":
                S.xob("marked", kind, x.has(F(post, "processing"), A3) is True
                      and grows(F(A2, "processing"), F(post, "processing")), x)
            else:
                c0, c1 = F(A2, "cached"), F(post, "cached")
                rid = F(md(), "round_id")
                S.xob("filed", kind, filed(x, c0, c1, A3, rid, vm), x,
                      "the buffer does not gain exactly this message under its sender and round")
        if reject_reason(x, cur) == "repeated":
            dup += 1
            S.xob("repeated-is-rejected", "repeated", not handed(x) and is_outcome(x, "Error"), x)
            S.xob("repeated-is-recorded", "repeated", recorded_fault(x), x)
    S.need("first-of-its-round", "accepting exits", n, 16)
    S.need("repeated-is-rejected", "rejecting exits", dup, 2)
    frame(S, ("cached", "processing"), "bookkeeping-kept-by-other-functions")
    initial_bookkeeping(S)


def grows(a, b):
    while b is not a:
        if b.op != "ins":
            return False
        b = b.a[0]
    return True


def filed(x, c0, c1, k, rid, vm):
    """c1 is c0 with vm filed under k / rid and nothing else changed"""
    if c1.op != "ins" or not x.same(c1.a[1], k):
        return False
    if c1.a[0] is not c0 and not (c1.a[0].op == "ins" and c1.a[0].a[0] is c0 and x.same(c1.a[0].a[1], k)):
        return False
    inner = c1.a[2]
    if inner.op != "ins" or inner.a[2] is not vm or not x.same(inner.a[1], rid):
        return False
    old = inner.a[0]
    if old.op == "empty":
        return x.has(c0, k) is False
    return old is get(c0, k)


def initial_bookkeeping(S):
    """a new accumulator starts with what the session buffered and handed out"""
    for x in S.run(SESSION + "make_accumulator"):
        if x.kind != "ret":
            S.xob("initial-bookkeeping", "panic", False, x)
            continue
        a = x.val
        S.xob("initial-bookkeeping", "buffer", F(a, "cached") is F(A1, "cached"), x)
        S.xob("initial-bookkeeping", "processing", F(a, "processing") is F(A1, "received_from"), x)
    for x, s, cm, base, push, skip in deliveries(S):
        if not S.xob("initial-bookkeeping", "shape", cm is not None, x):
            continue
        r = F(s, "received_from")
        e = elements(x, r)
        good = False
        if e is not None:
            b2, p2, s2 = e
            good = (b2.a[0] is base.a[0] or b2.a[0] is cm) and all(
                any(v2 in party_keys(T_("ekey", base.a[0], 0), v) and all(y.facts.get(c) == b for c, b in y2.facts.items() if isinstance(c, T))
                    for y2, v2 in p2) for y, v in push)
        S.xob("initial-bookkeeping", "delivered senders marked", good, x,
              "the senders of the messages handed out at the round change are not marked as received: %s" % clip(pretty(r), 600))
    for x in S.run(SESSION + "new"):
        v = x.ok()
        if v is not None:
            S.xob("initial-bookkeeping", "new session", F(v, "cached").op == "empty" and F(v, "received_from").op == "empty", x)


@check("C05")
def c05(S):
    xs = S.run(PP)
    n = b = 0
    for x in xs:
        if x.kind != "ret":
            continue
        d = banned(x)
        touched = x.post(2) is not A2 or handed(x)
        if touched:
            n += 1
            S.xob("ban-checked", "accepting or recording exit", d is False, x,
                  "the accumulator changes or a message is handed out although the sender may have a recorded fault")
        if d is True:
            b += 1
            S.xob("banned-rejected", "banned", is_outcome(x, "Error") and x.post(2) is A2, x)
    S.need("ban-checked", "exits", n, 40)
    S.need("banned-rejected", "exits", b, 2)
    m = 0
    for x, s, cm, base, push, skip in deliveries(S):
        if not S.xob("delivery-filter", "shape", cm is not None, x):
            continue
        k = T_("ekey", base.a[0], 0)
        for y, v in push:
            m += 1
            S.xob("delivery-filter", "delivered", banned_next(y, s, party_keys(k, v)) is False, y,
                  "a buffered message is delivered although its sender may have a recorded fault")
        new_faults_included(S, x, s)
    S.need("delivery-filter", "delivered elements", m, 2)
    faults_never_removed(S)


def new_faults_included(S, x, s):
    for f in ("provable_errors", "unprovable_errors"):
        at = members(F(s, "transcript." + f))
        S.xob("faults-carried-over", f, at is not None and ("set", F(A1, "transcript." + f)) in at
              and ("set", F(A3, f)) in at, x)


def only_inserted(x, a, b):
    """b results from a by insertions only"""
    n = 0
    while b is not a:
        if b.op == "ins":
            b = b.a[0]
        else:
            return False
        n += 1
        if n > 50:
            return False
    return True


def faults_never_removed(S):
    for f in acc_functions(S):
        if not f.startswith(SESSION):
            S.ob("faults-never-removed", f, False, S.span(f), "unknown function with exclusive access to an accumulator")
            continue
        for x in S.run(f):
            if x.kind != "ret":
                continue
            for n in acc_args(S, f):
                pre = sym("arg%d" % n)
                for e in ("provable_errors", "unprovable_errors"):
                    S.xob("faults-never-removed", "%s:%s" % (f.split("::")[-1], e), only_inserted(x, F(pre, e), F(x.post(n), e)), x)


@check("C06")
def c06(S):
    xs = S.run(PP)
    cur = round_id_of(S)
    n = u = 0
    for x in xs:
        if x.kind != "ret":
            continue
        for kind, vm in handed(x):
            if kind == "process":
                n += 1
                S.xob("sender-expected", "process", x.has(F(A2, "expecting_messages_from"), A3) is True, x)
        if x.has(F(A2, "expecting_messages_from"), A3) is False and x.same(F(md(), "round_id"), cur):
            u += 1
            S.xob("unexpected-rejected", "unexpected", x.ok() is not None and is_outcome(x, "Error") and recorded_fault(x), x)
    S.need("sender-expected", "exits", n, 8)
    S.need("unexpected-rejected", "exits", u, 1)
    m = 0
    for x, s, cm, base, push, skip in deliveries(S):
        if not S.xob("delivery-filter", "shape", cm is not None, x):
            continue
        k = T_("ekey", base.a[0], 0)
        ti, ci = next_ids(s)
        S.xob("expected-of-the-round", "new session", F(s, "communication_info") is ci, x)
        for y, v in push:
            m += 1
            S.xob("delivery-filter", "delivered", dec_has_any(y, F(ci, "expecting_messages_from"), party_keys(k, v)) is True, y,
                  "a buffered message is delivered although its sender may not be expected in the new round")
    S.need("delivery-filter", "delivered elements", m, 2)
    frame(S, ("expecting_messages_from",), "expected-set-kept", exempt=())
    for x in S.run(SESSION + "make_accumulator"):
        if x.kind == "ret":
            S.xob("expected-set-initial", "make_accumulator",
                  F(x.val, "expecting_messages_from") is F(A1, "communication_info.expecting_messages_from"), x)
    for x in S.run(SESSION + "new"):
        v = x.ok()
        if v is not None:
            S.xob("expected-of-the-round", "first session", F(v, "communication_info") is app(DYN + "communication_info", F(v, "round")), x)


@check("C16")
def c16(S):
    cur = round_id_of(S)
    n = 0
    for x in S.run(PP):
        if x.kind != "ret":
            continue
        for kind, vm in handed(x):
            if kind == "cache":
                n += 1
                S.xob("filed-under-round", "cache", vm is not None and filed(x, F(A2, "cached"), F(x.post(2), "cached"), A3, F(md(), "round_id"), vm), x)
        if x.ok() is not None and not handed(x):
            S.xob("acceptable-not-dropped", "rejected", reject_reason(x, cur) is not None, x)
    S.need("filed-under-round", "buffering exits", n, 8)
    frame(S, ("cached",), "buffer-kept")
    initial_bookkeeping(S)
    delivered_from_buffer(S, "delivered-in-its-round")
    m = 0
    for x, s, cm, base, push, skip in deliveries(S):
        if cm is None or buffer_key(base) is None:
            continue
        k = buffer_key(base)
        ti, ci = next_ids(s)
        rid = F(ti, "id")
        C = base.a[0]
        want = get(get(C, k), rid)
        keys = party_keys(k, want)
        for y in skip:
            m += 1
            why = y.has(get(C, k), rid) is False or banned_next(y, s, keys) is True \
                or dec_has_any(y, F(ci, "expecting_messages_from"), keys) is False
            S.xob("delivered-if-acceptable", "skipped element", why, y,
                  "a message buffered for the new round is not delivered although nothing is known against its sender")
        S.xob("stays-buffered", "new session", keeps_buffer(F(s, "cached"), C, rid), x,
              "messages buffered for other rounds are lost on this round change: %s" % clip(pretty(F(s, "cached")), 500))
    S.need("delivered-if-acceptable", "skipped cases", m, 4)


def keeps_buffer(t, C, rid):
    """t holds every entry of C except possibly those of the round rid"""
    if t is C:
        return True
    if t.op != "fold" or t.a[0].op != "seq" or t.a[0].a[0] is not C:
        return False
    k = T_("ekey", C, 0)
    old = get(C, k)
    init_empty = t.a[1].op == "empty"
    if not init_empty and t.a[1] is not C:
        return False
    for c, v in t.a[2]:
        if v.op == "acc":
            if init_empty:
                return False
            continue
        if v.op != "ins" or v.a[0].op != "acc" or v.a[1] is not k:
            return False
        if v.a[2] is not old and not (v.a[2].op == "rem" and v.a[2].a[0] is old and v.a[2].a[1] is rid):
            return False
    return True
