"""C34: evidence is only denied for a reason that evidence made by an honest node cannot give."""
from evidence_rules import *
from echo_rules import content_hash


def element(t):
    """(map, key, its own key?) of an element of a map looked at on a path"""
    if t.op == "get" and t.a[1].op == "ekey":
        return t.a[0], t.a[1]
    return None


class Reasons:
    """recognises, among the facts of a path, one that contradicts what the maker of the evidence established"""
    def __init__(self, x, kind, d):
        self.x, self.kind, self.d = x, kind, d
        if kind == "Protocol":
            self.trig = {somev(F(d, k)): k for k in KIND}
            self.prev = {F(F(d, k + "s"), "0"): k for k in KIND}
            self.EH = F(F(d, "echo_hashes"), "0")
            self.OB = F(F(d, "other_echo_broadcasts"), "0")

    def signer(self, sg, who):
        """the signature `sg` is one of the evidence's, and `who` is who should have made it"""
        x, d = self.x, self.d
        if sg is None or sg.op != "fld":
            return False
        if self.kind in INVALID:
            return sg is F(fld(d, None, "0"), "signature.0") and x.same(who, GUILTY)
        if self.kind == "InvalidEcho":
            return sg is F(d, "normal_broadcast.signature.0") and x.same(who, GUILTY)
        if self.kind == "MismatchedBroadcasts":
            g = F(d, "error.guilty_party")
            return sg in (F(d, "error.we_received.signature.0"), F(d, "error.echoed_to_us.signature.0")) and (who is g or x.same(who, GUILTY))
        p = self.part_with(sg, "signature.0")
        if p is None:
            return False
        r, key = self.role(p)
        if r in ("trigger", "previous", "echo message"):
            return x.same(who, GUILTY)
        return r in ("entry", "broadcast") and who is key

    def part_with(self, t, path):
        """p such that t is F(p, path)"""
        for n in reversed(path.split(".")):
            if t.op != "fld" or t.a[2] != n:
                return None
            t = t.a[0]
        return t

    def role(self, p):
        if p in self.trig:
            return "trigger", None
        e = element(p)
        if e is None:
            return None, None
        M, k = e
        if M in self.prev:
            return ("previous", k) if k.a[0] is M else (None, None)
        if M is self.EH:
            return "echo message", k
        if self.hashes(M) is not None:
            return "entry", k
        if self.broadcasts(M) is not None:
            return "broadcast", k
        return None, None

    def hashes(self, H):
        """H are the hashes of the echo message filed under: the key"""
        if H.op != "fld" or not any(isapp(u, "deserialize") for u in subterms(H)):
            return None
        for u in subterms(H):
            e = element(u)
            if e is not None and e[0] is self.EH:
                return e[1]
        return None

    def broadcasts(self, B):
        if B.op == "fld" and B.a[2] == "0":
            B = B.a[0]
        e = element(B)
        return e[1] if e is not None and e[0] is self.OB else None

    def unverified(self):
        for f, v in self.x.facts.items():
            if v is not False or not isinstance(f, T) or f.op != "isvar" or f.a[1] != "Ok" or f.a[0].op != "app":
                continue
            a = f.a[0]
            if isapp(a, VERIFY) and self.signer(sig_of(a.a[1][2]), a.a[1][0]):
                return True
            if isapp(a, DESER) and isapp(a.a[1][0], WF_DESER):
                sg = a.a[1][0].a[1][0]
                for who in [GUILTY, F(self.d, "error.guilty_party")] + [u for u in subterms(sg) if u.op == "ekey"]:
                    if self.signer(sg, who):
                        return True
        return False

    def undecodable(self, pay):
        return any(v is False and isinstance(f, T) and f.op == "isvar" and f.a[1] == "Ok" and deser_type(f.a[0], "EchoRoundMessage")
                   and any(u is pay or (u.op == "fld" and u.a[0] is pay) for u in subterms(f.a[0])) for f, v in self.x.facts.items()) \
            or self.x.no(isvar(pay, "Some"))

    # ---- the kinds
    def found(self):
        if self.unverified():
            return True
        return getattr(self, {"InvalidEcho": "echo", "MismatchedBroadcasts": "mismatch", "Protocol": "protocol"}.get(self.kind, "part"))()

    def part(self):
        x = self.x
        part = fld(self.d, None, "0")
        rid = F(part, MWM + ".metadata.round_id")
        k = INVALID[self.kind]
        if x.dec(F(rid, "is_echo")) is True:
            return malformed(x, k, payload_of_(part), None) is False
        return any(v is False and isinstance(f, T) and f.op == "isvar" and f.a[1] == "Some" and round_info_of(x, f.a[0], rid)
                   for f, v in x.facts.items())

    def echo(self):
        x, d = self.x, self.d
        nb = F(d, "normal_broadcast")
        who = F(d, "error.invalid_echo_sender")
        rid = F(nb, MWM + ".metadata.round_id")
        if x.dec(F(rid, "is_echo")) is False or self.undecodable(payload_of_(nb)):
            return True
        M = echo_hashes_of(x, nb)
        if M is None:
            return False
        if x.has(M, who) is False:
            return True
        ent = get(M, who)
        if not entry_verified(x, who, ent):
            return False
        sid = F(nb, MWM + ".metadata.session_id")
        md = F(ent, "metadata")
        if x.same(F(md, "session_id"), sid) and main_round_of(x, rid, F(md, "round_id")):
            return True
        return any(v is True and isinstance(f, T) and f.op == "eq" and any(
            s is md and F(t, "session_id") is sid and is_main(x, F(t, "round_id"), rid) for s, t in (f.a, f.a[::-1])) for f, v in x.facts.items())

    def mismatch(self):
        x, e = self.x, F(self.d, "error")
        if x.no(eq(F(e, "guilty_party"), GUILTY)) or x.no(eq(GUILTY, F(e, "guilty_party"))):
            return True
        a, b = F(e, "we_received"), F(e, "echoed_to_us")
        if hash_equal(x, F(b, "message_part_hash"), a) is True:
            return True
        p, q = F(a, MWM + ".metadata"), F(b, "metadata")
        return any(x.no(eq(F(s, n), F(t, n))) for s, t in ((p, q), (q, p)) for n in ("session_id", "round_id", "round_id.round", "round_id.groups")) \
            or x.no(eq(p, q)) or x.no(eq(q, p)) or self.flag_differs(F(p, "round_id.is_echo"), F(q, "round_id.is_echo"))

    def flag_differs(self, a, b):
        p, q = self.x.dec(a), self.x.dec(b)
        return (p is not None and q is not None and p is not q) or self.x.no(eq(a, b)) or self.x.no(eq(b, a))

    def protocol(self):
        x, d = self.x, self.d
        if all(x.no(isvar(F(d, k), "Some")) for k in KIND):
            return True
        tr = trigger(x, d)
        if tr and any(v is False and isinstance(f, T) and f.op == "isvar" and f.a[1] == "Some" and
                      any(round_info_of(x, f.a[0], F(p, MWM + ".metadata.round_id")) for _, p in tr) for f, v in x.facts.items()):
            return True
        for f, v in x.facts.items():
            if v is True and isinstance(f, T) and f.op == "isvar" and f.a[1] == "None":
                f, v = isvar(f.a[0], "Some"), False
            if v is True and isinstance(f, T) and f.op == "isvar" and f.a[1] == "Err":
                f, v = isvar(f.a[0], "Ok"), False
            if v is not False or not isinstance(f, T):
                continue
            if f.op == "has":
                M, k = f.a
                if M is self.OB and k.op == "ekey" and k.a[0] is self.EH:
                    return True
                if self.broadcasts(M) is not None and k.op == "ekey" and self.hashes(k.a[0]) is self.broadcasts(M):
                    return True
            elif f.op == "isvar" and deser_type(f.a[0], "EchoRoundMessage"):
                if any((element(u) or (None,))[0] is self.EH for u in subterms(f.a[0])):
                    return True
            elif f.op == "isvar" and f.a[1] == "Some":
                p = self.part_with(f.a[0], MWM + ".message.0")
                if p is not None and self.role(p)[0] == "echo message":
                    return True
            elif f.op == "eq":
                for a, b in (f.a, f.a[::-1]):
                    if self.other_session(a, b) or self.other_round(a, b) or self.other_meta(a, b):
                        return True
                    p = self.part_with(a, "message_part_hash")
                    if p is not None and self.role(p)[0] == "entry" and \
                            content_hash(x, b, get(F(get(self.OB, self.hashes(element(p)[0])), "0"), self.role(p)[1])):
                        return True
            elif f.op == "fld" and f.a[2] == "is_echo":
                p = self.md_part(f, "round_id.is_echo")
                if p is not None and self.role(p)[0] == "echo message":
                    return True
        return False

    def md_part(self, t, path):
        for pre in (MWM + ".metadata.", "metadata."):
            p = self.part_with(t, pre + path)
            if p is not None and self.role(p)[0] is not None:
                return p
        return None

    def other_session(self, a, b):
        return self.md_part(a, "session_id") is not None and self.md_part(b, "session_id") is not None

    def other_meta(self, a, b):
        """whole metadata compared"""
        for pre in (MWM + ".metadata", "metadata"):
            p = self.part_with(a, pre)
            if p is not None and self.role(p)[0] is not None:
                s, r = F(b, "session_id"), F(b, "round_id")
                return self.md_part(s, "session_id") is not None and self.round_wanted(p, r)
        return False

    def other_round(self, a, b):
        for sub in ("", ".round", ".groups"):
            p = self.md_part(a, "round_id" + sub)
            if p is not None:
                return self.round_wanted(p, b, sub[1:])
        # the main round of an echo message
        if a.op == "adt" and F(a, "is_echo") is FALSE:
            p = self.md_part(F(a, "round"), "round_id.round")
            return p is not None and F(a, "groups") is F(p, MWM + ".metadata.round_id.groups") and self.role(p) == ("echo message", b)
        return False

    def round_wanted(self, p, r, sub=""):
        role, key = self.role(p)
        if role == "trigger":
            q = self.md_part(r, "round_id" + ("." + sub if sub else ""))
            return q is not None and self.role(q)[0] == "trigger"
        if role == "previous":
            return r is (F(key, sub) if sub else key)
        if role == "entry":
            want = self.hashes(element(p)[0])
        elif role == "broadcast":
            want = self.broadcasts(element(p)[0])
        else:
            return False
        return r is (F(want, sub) if sub else want)


@check("C34")
def c34(S):
    n = {}
    for x in S.run(EV):
        if x.kind != "ret" or x.val is None:
            S.xob("verification-answers", "no panic", False, x)
            continue
        v = variant_of(x, EVIDENCE)
        if v is None:
            S.xob("kind-known", "evidence", False, x, "evidence is answered without looking at its kind")
            continue
        e = x.err()
        asked = any(isapp(x.res, m) for m in ["DynRoundInfo::verify_evidence"] + ["verify_%s_is_invalid" % k for k in KIND])
        if e is None or asked:
            if x.ok() is None or asked:
                n[v, "asked"] = n.get((v, "asked"), 0) + 1
                S.xob("denied-only-with-reason", v + " asks the round", asked, x, "the answer comes from elsewhere")
            continue
        if e.op == "adt" and e.a[1] == "Local":
            continue
        n[v, "denied"] = n.get((v, "denied"), 0) + 1
        S.xob("denied-only-with-reason", v, Reasons(x, v, fld(EVIDENCE, v, "0")).found(), x,
              "denied although nothing is known that contradicts what a node making such evidence established")
    for v, c in (("InvalidDirectMessage", 2), ("InvalidEchoBroadcast", 2), ("InvalidNormalBroadcast", 2), ("InvalidEcho", 4),
                 ("MismatchedBroadcasts", 4), ("Protocol", 20)):
        S.need("denied-only-with-reason", v, n.get((v, "denied"), 0), c)
    for v in list(INVALID) + ["InvalidEcho", "MismatchedBroadcasts", "Protocol"]:
        if v in INVALID or v == "Protocol":
            S.need("denied-only-with-reason", v + " asks the round", n.get((v, "asked"), 0), 1)
    for k in KIND:
        for x in S.run(impl_fn(S, "RoundInfoObject", "DynRoundInfo", "verify_%s_is_invalid" % k)):
            if x.kind == "ret" and x.err() is not None and not (x.err().op == "adt" and x.err().a[1] == "Local"):
                S.xob("denied-only-with-reason", "round's answer on " + k, malformed(x, k, F(A3, "0"), "Round<Id>>::" + KIND[k]) is False, x)
    m = 0
    for x in S.run(impl_fn(S, "RoundInfoObject", "DynRoundInfo", "verify_evidence")):
        if x.kind == "ret" and isadt(x.res, "Result", "Err"):
            m += 1
            S.xob("denied-only-with-reason", "undecodable error", any(
                v is False and isinstance(f, T) and f.op == "isvar" and deser_type(f.a[0], "ProtocolError") for f, v in x.facts.items()), x)
        elif x.kind == "ret":
            m += 1
            S.xob("denied-only-with-reason", "protocol asked", isapp(x.res, "ProtocolError::verify_evidence"), x)
    S.need("denied-only-with-reason", "protocol's answer", m, 2)
