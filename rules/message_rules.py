"""C02: what signatures commit to; C26: what a node sends."""
from lib import *
from session_rules import *

KINDS = {"direct_message": "DirectMessage", "echo_broadcast": "EchoBroadcast", "normal_broadcast": "NormalBroadcast"}


def crypto_terms(xs):
    """all signing / verification terms occurring in the exits, with an exit they occur on"""
    r, seen = {}, set()
    for x in xs:
        stack = [k for k in x.facts if isinstance(k, T)] + ([x.val] if x.val is not None else [])
        stack += [v for k, v in x.st.env.items() if k[0] == "arg" and isinstance(v, T)]
        while stack:
            t = stack.pop()
            if t in seen:
                continue
            seen.add(t)
            if t.op == "app" and t.a[0] in (VERIFY, SIGN):
                r.setdefault(t, x)
            if isadt(t, "SignedMessagePart") and fieldsof(t).get("signature") is not None:
                r.setdefault(t, x)
            stack.extend(kids(t))
    return r


def kids(t):
    for a in t.a:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            st = list(a)
            while st:
                b = st.pop()
                if isinstance(b, T):
                    yield b
                elif isinstance(b, tuple):
                    st.extend(b)


def fieldsof(t):
    return dict(zip(t.a[2], t.a[3])) if t.op == "adt" else {}


def constval(p):
    """the bytes of a constant piece"""
    if p.op == "bytes":
        v = p.a[0]
        return v if isinstance(v, bytes) else str(v).encode()
    if p.op == "str":
        return str(p.a[0]).encode()
    if p.op == "arr" and all(e.op == "int" for e in p.a[0]):
        return bytes(e.a[0] & 255 for e in p.a[0])
    if p.op == "int":
        return bytes([p.a[0] & 255])
    return None


def derived_from(p, src):
    """p is src or reached from src by field selection"""
    while p.op == "fld":
        if p is src:
            return True
        p = p.a[0]
    return p is src


def template(x, h, md, payload, raw=None):
    """abstract form of the hashed data: pieces in terms of the metadata, the payload and constants; None if unknown"""
    r = []
    for p in h.a[0]:
        c = constval(p)
        if c is not None:
            if r and r[-1][0] == "c":
                r[-1] = ("c", r[-1][1] + c)
            else:
                r.append(("c", c))
            continue
        if p.op == "fld" and p.a[1] == "Ok" and isapp(p.a[0], WF_SER):
            v = p.a[0].a[1][0]
            if isadt(v, "PartKind"):
                r.append(("kind", v.a[1]))
            elif x.same(v, md) or (isadt(v, "MessageMetadata") and all(x.same(F(v, n), F(md, n)) for n in v.a[2])):
                r.append(("ser", "session_id"))
                r.append(("ser", "round_id"))
            elif x.same(v, F(md, "session_id")):
                r.append(("ser", "session_id"))
            elif x.same(v, F(md, "round_id")):
                r.append(("ser", "round_id"))
            else:
                return None
            continue
        if p.op == "app" and (p.a[0].endswith("to_be_bytes") or p.a[0].endswith("to_le_bytes")):
            w = p.a[1][0]
            while w.op == "cast":
                w = w.a[0]
            if w.op != "len":
                return None
            n = naming(x, w.a[0], md, payload, raw)
            if n is None:
                return None
            r.append(("len", p.a[0][-11:], n))
            continue
        n = naming(x, p, md, payload, raw)
        if n is None:
            return None
        r.append(n)
    return tuple(r)


def naming(x, p, md, payload, raw):
    if raw is not None and derived_from(p, raw):
        return ("parthash", "raw")
    if p.op == "digest" or (p.op == "app" and p.a[0] == "digest"):
        t = template(x, p.a[0], md, payload)
        return None if t is None else ("parthash", t)
    if payload is not None and derived_from(p, somev(payload)):
        return ("payload",)
    return None


def injective(t):
    """every variable piece is self-delimiting, of fixed size, preceded by its length, or last"""
    lens = []
    for i, p in enumerate(t):
        if p[0] == "len":
            lens.append(p[2])
        elif p[0] in ("payload", "parthash"):
            if p not in lens and not (p[0] == "parthash" and p[1] != "raw") and i != len(t) - 1:
                return False
    return True


def separated(t, u):
    """the two templates never describe the same data"""
    for a, b in zip(t, u):
        if a == b:
            continue
        if a[0] == "c" and b[0] == "c":
            n = min(len(a[1]), len(b[1]))
            if a[1][:n] != b[1][:n]:
                return True
            # one constant is a prefix of the other: distinct if the shorter one ends its data
            s, i = (t, t.index(a)) if len(a[1]) == n else (u, u.index(b))
            return i == len(s) - 1
        if a[0] == "kind" and b[0] == "kind":
            return True
        return False
    return len(t) != len(u)


def outer(t):
    """template with the part's hash left abstract"""
    return tuple(("len", p[1], ("parthash",)) if p[0] == "len" and p[2][0] == "parthash" else ("parthash",) if p[0] == "parthash" else p
                 for p in t)


def inner(t):
    for p in t:
        if p[0] == "parthash":
            return p[1]
    return None


def part_kind(x, owner, t):
    for p in t:
        if p[0] == "kind":
            return p[1]
    return None


ROOTS = ("new", "make_message", "finalize_round", "preprocess_message")


def templates(S, with_evidence=True):
    """[(site, side, kind, empty?, template, exit)] of every signing and verification in the library"""
    roots = [SESSION + r for r in ROOTS] + [impl_fn(S, "EchoRound", "DynRound", "receive_message")]
    if with_evidence:
        roots.append("session::evidence::Evidence::verify")
    res = []
    for r in roots:
        xs = S.run(r)
        for t, x in crypto_terms(xs).items():
            if t.op == "adt":
                sg = F(t, "signature.0")
                if not (sg.op == "fld" and sg.a[1] == "Ok" and isapp(sg.a[0], WF_SER)):
                    continue
                v = sg.a[0].a[1][0]
                if not (v.op == "fld" and v.a[1] == "Ok" and isapp(v.a[0], SIGN)):
                    continue
                h = v.a[0].a[1][2]
                owner, side = t, "sign"
            elif t.a[0] == VERIFY:
                h = t.a[1][1]
                so = sig_of(t.a[1][2])
                if so is None or so.op != "fld":
                    S.ob("signature-origin", r, False, x.where(), "a verified signature does not come from a message part")
                    continue
                owner = so.a[0]
                if owner.op == "fld" and owner.a[2] == "signature":
                    owner = owner.a[0]
                side = "verify"
            else:
                continue
            if h.op != "hash":
                S.ob("signed-data", r, False, x.where(), "signed data is not a hash: %s" % clip(pretty(h), 300))
                continue
            md, pay, raw = F(owner, MWM + ".metadata"), F(owner, MWM + ".message.0"), None
            tm = template(x, h, md, pay)
            if tm is None:
                md, pay, raw = F(owner, "metadata"), None, F(owner, "message_part_hash")
                tm = template(x, h, md, None, raw)
                side = "verify-hash"
            if not S.ob("signed-data", "%s %s" % (r.split("::")[-1], side), tm is not None, x.where(),
                        lambda: "the data signed for %s is not a known function of its metadata and content: %s" % (
                            clip(pretty(owner), 200), clip(pretty(h), 1500))):
                continue
            res.append((r, side, owner, tm, x, pay))
    return res


@check("C02")
def c02(S):
    ts = templates(S)
    outers, inners = {}, {}
    for r, side, owner, tm, x, pay in ts:
        site = "%s %s" % (r.split("::")[-1], side)
        k = part_kind(x, owner, tm)
        S.xob("commits-to", site + " kind", k is not None, x, "the kind of the part is not part of the signed data")
        S.xob("commits-to", site + " session", ("ser", "session_id") in tm, x)
        S.xob("commits-to", site + " round", ("ser", "round_id") in tm, x)
        S.xob("unambiguous", site, injective(tm), x, "variable-length pieces are not delimited: %s" % (tm,))
        outers.setdefault(k, {}).setdefault(outer(tm), []).append(site)
        i = inner(tm)
        if not S.xob("commits-to", site + " content", i is not None, x, "the hash of the content is not part of the signed data"):
            continue
        if i == "raw":
            S.xob("hash-kind", site, k == "EchoBroadcast", x, "an echoed hash is not verified as an echo broadcast")
            continue
        S.xob("unambiguous", site + " content", injective(i), x, "variable-length pieces are not delimited: %s" % (i,))
        empty = ("payload",) not in i
        if empty:
            S.xob("commits-to", site + " emptiness", empty_known(x, owner, tm, pay), x,
                  "the content of a possibly non-empty part does not enter the hash")
        inners.setdefault((k, empty), {}).setdefault(i, []).append(site)
        ek = expected_kind(S, owner, r)
        if ek is not None:
            S.xob("own-kind", site, k == ek, x, "a part is signed or verified under another kind")
    for k, d in outers.items():
        S.ob("one-derivation", "signed data of %s" % k, len(d) == 1, "", "different derivations: %s" % d)
    for k, d in inners.items():
        S.ob("one-derivation", "content hash %s" % (k,), len(d) == 1, "", "different derivations: %s" % d)
    ks = sorted(outers, key=str)
    for i, a in enumerate(ks):
        for b in ks[i + 1:]:
            S.ob("kinds-separated", "signed data %s/%s" % (a, b), all(separated(t, u) for t in outers[a] for u in outers[b]), "", "")
    ks = sorted(inners, key=str)
    for i, a in enumerate(ks):
        for b in ks[i + 1:]:
            S.ob("kinds-separated", "content hash %s/%s" % (a, b), all(separated(t, u) for t in inners[a] for u in inners[b]), "",
                 "%s vs %s" % (inners[a], inners[b]))
    S.need("one-derivation", "kinds", len(outers), 3, exact=True)
    S.need("one-derivation", "kinds and emptiness", len(inners), 6, exact=True)
    sides = {(part_kind(x, o, tm), side) for r, side, o, tm, x, p in ts}
    for k in KINDS.values():
        for side in ("sign", "verify"):
            S.ob("one-derivation", "covered %s %s" % (k, side), (k, side) in sides)
    S.ob("one-derivation", "covered echoed hashes", ("EchoBroadcast", "verify-hash") in sides)
    echo_hash_rules(S, inners)


def empty_known(x, owner, tm, pay):
    return x.no(isvar(pay, "Some")) or (pay.op == "adt" and pay.a[1] == "None")


def expected_kind(S, owner, root):
    """the kind a part must be signed / verified as, from the field it comes from"""
    if owner.op == "fld" and owner.a[2] in KINDS:
        return KINDS[owner.a[2]]
    m = F(owner, MWM + ".message")
    if m.op == "adt":
        n = m.a[0].split("::")[-1]
        return n if n in KINDS.values() else None
    return None


def echo_hash_rules(S, inners):
    """the hashes that are echoed and compared are computed like the ones signed"""
    good = {True: set(inners.get(("EchoBroadcast", True), {})), False: set(inners.get(("EchoBroadcast", False), {}))}
    n = 0
    for root in ("make_normal_broadcast", "receive_message"):
        for x in S.run(impl_fn(S, "EchoRound", "DynRound", root)):
            for h, y in hashes_of(x):
                if is_outer(h):
                    continue
                owner, pay = hash_owner(h)
                if owner is None:
                    if not any(constval(p) is not None and b"SignedMessagePart" in constval(p) for p in h.a[0]) and not is_outer(h):
                        S.xob("echo-hash", root, False, y, "unknown hash %s" % clip(pretty(h), 300))
                    continue
                n += 1
                tm = template(y, h, sym("none"), pay)
                S.xob("echo-hash", root, tm is not None and (tm in good[True] or tm in good[False]), y,
                      "an echoed hash is computed differently from the hash that is signed: %s" % (tm,))
    S.need("echo-hash", "content hashes in the echo round", n, 2)


def is_outer(h):
    return any(p.op == "fld" and isapp(p.a[0], WF_SER) for p in h.a[0])


def hashes_of(x):
    seen = set()
    stack = [(k) for k in x.facts if isinstance(k, T)] + ([x.val] if x.val is not None else [])
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == "hash":
            yield t, x
        stack.extend(kids(t))


def hash_owner(h):
    for p in h.a[0]:
        for s in subterms(p):
            if s.op == "fld" and s.a[1] == "Some":
                return s, s.a[0]
    if all(constval(p) is not None for p in h.a[0]):
        return h, sym("nothing")
    return None, None


# ---------------------------------------------------------------- C26
def signed_as(x, part, kind, signer, sid, rid):
    """`part` was signed with `signer` as a part of `kind` of the session sid and the round rid; returns (ok, message)"""
    sg = F(part, "signature.0")
    if not (sg.op == "fld" and sg.a[1] == "Ok" and isapp(sg.a[0], WF_SER)):
        return False, "the signature is not a serialized signature: %s" % clip(pretty(sg), 200)
    v = sg.a[0].a[1][0]
    if not (v.op == "fld" and v.a[1] == "Ok" and isapp(v.a[0], SIGN)):
        return False, "not signed here"
    sgn, rng, h = v.a[0].a[1][:3]
    if not x.same(sgn, signer):
        return False, "signed with another key"
    md = F(part, MWM + ".metadata")
    if not (x.same(F(md, "session_id"), sid) and x.same(F(md, "round_id"), rid)):
        return False, "labelled with another session or round"
    tm = template(x, h, md, F(part, MWM + ".message.0"))
    if tm is None or part_kind(x, part, tm) != kind or ("ser", "session_id") not in tm or ("ser", "round_id") not in tm:
        return False, "the signed data is not that of the part: %s" % (tm,)
    return True, ""


def new_sessions(S):
    for x in S.run(SESSION + "new"):
        v = x.ok()
        if v is not None:
            yield "new", x, v
    for x, s, cm in transitions(S):
        yield "round change", x, s


@check("C26")
def c26(S):
    n = {}
    for site, x, s in new_sessions(S):
        rnd = F(s, "round")
        ti, ci = next_ids(s)
        signer, sid, rid = F(s, "signer"), F(s, "session_id"), F(ti, "id")
        if site == "round change":
            S.xob("own-key", site, signer is F(A1, "signer"), x)
        dest = F(ci, "message_destinations")
        idle = x.dec(T_("isempty", dest))
        S.xob("current-identifiers", site, F(s, "transition_info") is ti and F(s, "communication_info") is ci, x)
        for p, fn, method in (("echo_broadcast", "EchoBroadcast", "make_echo_broadcast"),
                              ("normal_broadcast", "NormalBroadcast", "make_normal_broadcast")):
            part = F(s, p)
            ok, why = signed_as(x, part, fn, signer, sid, rid)
            S.xob("broadcast-signed", "%s %s" % (site, p), ok, x, why)
            m = F(part, MWM + ".message")
            made = None
            for t in subterms(m):
                if isapp(t, DYN + method):
                    made = t
            if made is not None:
                n[p, "made"] = n.get((p, "made"), 0) + 1
                S.xob("broadcast-content", "%s %s" % (site, p), m is okv(made) and made.a[1][0] is rnd and formats_same(x, made.a[1][2], F(s, "format")), x,
                      "not the message made by the round: %s" % clip(pretty(m), 300))
                S.xob("broadcast-content", "%s %s has destinations" % (site, p), idle is False, x)
            else:
                n[p, "empty"] = n.get((p, "empty"), 0) + 1
                S.xob("broadcast-content", "%s %s" % (site, p), idle is True and x.no(isvar(F(m, "0"), "Some")), x,
                      "the round's broadcast is not sent although the round has destinations")
    for k in ("echo_broadcast", "normal_broadcast"):
        S.need("broadcast-content", k + " made", n.get((k, "made"), 0), 2)
        S.need("broadcast-content", k + " empty", n.get((k, "empty"), 0), 2)
    m = 0
    rid = round_id_of(S)
    for x in S.run(SESSION + "make_message"):
        v = x.ok()
        if v is None:
            continue
        m += 1
        msg, art = fld(v, None, "0"), fld(v, None, "1")
        d = F(msg, "direct_message")
        ok, why = signed_as(x, d, "DirectMessage", F(A1, "signer"), F(A1, "session_id"), rid)
        S.xob("direct-message-signed", "make_message", ok, x, why)
        c = F(d, MWM + ".message")
        mk = [t for t in subterms(c) if isapp(t, DYN + "make_direct_message")]
        good = len(mk) == 1 and c is fld(okv(mk[0]), None, "0") and mk[0].a[1][0] is F(A1, "round") and mk[0].a[1][3] is A3 \
            and mk[0].a[1][2] is F(A1, "format")
        S.xob("direct-message-content", "make_message", good, x, clip(pretty(c), 400))
        S.xob("destination", "make_message", F(msg, "destination") is A3, x)
        S.xob("broadcasts-attached", "echo", F(msg, "echo_broadcast") is F(A1, "echo_broadcast"), x)
        S.xob("broadcasts-attached", "normal", F(msg, "normal_broadcast") is F(A1, "normal_broadcast"), x)
        S.xob("artifact", "destination", F(art, "destination") is A3, x)
        S.xob("artifact", "content", good and F(art, "artifact") is fld(okv(mk[0]), None, "1"), x)
    S.need("direct-message-signed", "exits", m, 1)
    k = 0
    for x in S.run(SESSION + "add_artifact"):
        pre, post = F(A2, "artifacts"), F(x.post(2), "artifacts")
        dst = F(A3, "destination")
        if x.kind == "ret" and x.ok() is not None:
            k += 1
            S.xob("artifact-recorded", "add_artifact", post.op == "ins" and post.a[0] is pre and x.same(post.a[1], dst)
                  and post.a[2] is F(A3, "artifact") and x.has(pre, dst) is False, x)
            S.xob("artifact-recorded", "nothing else", not set(changed(A2, x.post(2), ACCF)) - {"artifacts"}, x)
        elif x.kind == "ret":
            S.xob("artifact-refused", "add_artifact", x.has(pre, dst) is True, x)
    S.need("artifact-recorded", "exits", k, 1)
    frame(S, ("artifacts",), "artifacts-kept", exempt=(SESSION + "add_artifact",))
    own = 0
    for x, s, cm in transitions(S):
        eb = F(s, "transcript.echo_broadcasts")
        mine = F(A1, "echo_broadcast")
        e = x.dec(isvar(payload_of_(mine), "Some"))
        per_round = value_at(x, eb, rid)
        if not S.xob("own-broadcast-recorded", "round entry", per_round is not None, x, clip(pretty(eb), 400)):
            continue
        own += 1
        S.xob("own-broadcast-recorded", "sent", has_entry(x, per_round, F(A1, "verifier"), mine)
              or (e is False and F(A3, "echo_broadcasts") is per_round), x,
              "the node's own echo broadcast is not recorded: %s" % clip(pretty(per_round), 400))
    S.need("own-broadcast-recorded", "round changes", own, 2)


def payload_of_(part):
    return F(part, MWM + ".message.0")


def formats_same(x, a, b):
    return a is b or x.same(a, b)


def value_at(x, m, k):
    while m.op == "ins":
        if x.same(m.a[1], k):
            return m.a[2]
        m = m.a[0]
    return None


def has_entry(x, m, k, v):
    while m.op == "ins":
        if x.same(m.a[1], k):
            return same_value(x, m.a[2], v)
        m = m.a[0]
    return False
