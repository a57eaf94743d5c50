"""C22 and other self-contained parts."""
from lib import *
from session_rules import *

MAP = "utils::serializable_map::"


def inner(t):
    """through single-field wrappers"""
    while t.op == "adt" and len(t.a[3]) == 1 and t.a[0] not in (RESULT, OPTION):
        t = t.a[3][0]
    return t


@check("C22")
def c22(S):
    M1 = F(sym("arg1"), "0")
    # writing
    n = 0
    for x in S.run(impl_fn(S, "SerializableMap", "Serialize", "serialize")):
        v = x.val
        if x.kind != "ret":
            S.xob("writes-every-entry", "", False, x, "serialization panics")
            continue
        if isapp(v, "SerializeSeq::end"):
            n += 1
            S.xob("writes-every-entry", "", wrote_all(v.a[1][0], M1), x, "not every entry of the map is written exactly once: " + clip(pretty(v), 300))
        elif isapp(v, "Serializer::collect_seq"):
            n += 1
            it = v.a[1][1]
            S.xob("writes-every-entry", "", it is M1 or (it.op == "it" and it.a[0] is T_("seq", M1, "map")), x, "another sequence than the map's entries is written")
        elif x.err() is not None:
            S.xob("fails-only-when-writing-fails", "", x.failed_result(v) is not None or from_failed(x, x.err()), x, "an error although nothing failed")
        else:
            S.xob("writes-every-entry", "", False, x, "unexpected result")
        if isapp(v, "SerializeSeq::end"):
            for e in x.st.events():
                for p in (e.extra.parts if e.kind == "loop" else ()):
                    px = X(x.I, interp.Out("part", p.st), x.root)
                    for c in p.events:
                        if c.kind == "call" and c.name.endswith("SerializeSeq::serialize_element"):
                            S.xob("failed-write-reported", "", px.dec(isvar(c.ret, "Ok")) is True, px, "goes on after an entry could not be written")
    S.need("writes-every-entry", "paths", n, 1)
    # reading
    n = 0
    for x in S.run(impl_fn(S, "SerializableMap", "Deserialize", "deserialize")):
        v = x.val
        ok = x.kind == "ret" and isapp(v, "Deserializer::deserialize_seq") and v.a[1][0] is sym("arg1")
        n += 1
        S.xob("reads-as-it-writes", "", ok, x, "the map is not read as a sequence by its own visitor")
    S.need("reads-as-it-writes", "paths", n, 1)
    ends = {"read": 0, "duplicate": 0, "broken": 0}
    for x in S.run(impl_fn(S, "MapVisitor", "Visitor", "visit_seq")):
        if x.kind != "ret":
            S.xob("reads-every-entry", "panic", False, x, "reading panics")
            continue
        nx = [e for e in x.st.events() if e.kind == "call" and e.name.endswith("SeqAccess::next_element")]
        last = nx[-1].ret if nx else None
        loops = [e for e in x.st.events() if e.kind == "loop"]
        if x.ok() is not None:
            ends["read"] += 1
            S.xob("reads-to-the-end", "", last is not None and x.dec(isvar(last, "Ok")) is True and x.dec(isvar(okv(last), "Some")) is False, x,
                  "stops before the end of the input")
            got = inner(x.ok())
            S.xob("reads-every-entry", "", len(loops) == 1 and collected(S, x, loops[0], got), x, "the result is not the map of the entries read")
        elif x.err() is not None:
            dup = last is not None and any(t.op == "has" and b is True and t.a[1] is F(somev(okv(last)), "0") for t, b in x.facts.items() if isinstance(t, T))
            broken = last is not None and x.dec(isvar(last, "Ok")) is False
            ends["duplicate"] += dup
            ends["broken"] += broken
            S.xob("fails-only-on-bad-input", "", dup or (broken and x.err() is errv(last)), x, "fails although the input is readable and without duplicates")
        else:
            S.xob("reads-every-entry", "", False, x, "unexpected result")
    for k, c in ends.items():
        S.need("reads-every-entry", k, c, 1)
    # the wrapper adds and removes nothing
    a = sym("arg1")
    for root, want in ((impl_fn(S, "SerializableMap", "Deref", "deref"), F(a, "0")), (impl_fn(S, "SerializableMap", "DerefMut", "deref_mut"), F(a, "0"))):
        for x in S.run(root):
            S.xob("wrapper", short_(root), x.kind == "ret" and mref_of(x.val) is want, x, "does not give access to the map itself")
    for x in S.run(impl_fn(S, "SerializableMap", "From", "from")):
        S.xob("wrapper", "from", x.kind == "ret" and isadt(x.val, "SerializableMap") and F(x.val, "0") is a, x, "does not wrap the map itself")
    for k in sorted(S.prog.roots):
        if norm(k.split("#[")[0]).startswith(MAP + "<impl core::convert::From<" + MAP + "SerializableMap"):
            for x in S.run(norm(k.split("#[")[0])):
                S.xob("wrapper", "into", x.kind == "ret" and x.val is F(a, "0"), x, "does not return the map itself")
    for x in S.run(impl_fn(S, "SerializableMap", "FromIterator", "from_iter")):
        v = F(x.val, "0") if x.kind == "ret" and x.val.op == "adt" else None
        S.xob("wrapper", "from_iter", v is not None and from_all(v, a), x, "does not collect all the pairs")


def short_(n):
    return n.split("::")[-1]


def mref_of(t):
    if t is not None and t.op == "loc" and t.a[0] == ("arg", 1):
        r = sym("arg1")
        for st in t.a[1]:
            r = fld(r, st[1], st[2])
        return r
    return t.a[0] if t is not None and t.op == "mref" else t


def from_failed(x, e):
    return any(isinstance(t, T) and t.op == "isvar" and t.a[1] == "Ok" and b is False and e is errv(t.a[0]) for t, b in x.facts.items())


def from_all(v, a):
    if v.op == "app":
        return a in v.a[1]
    if v.op == "fold" and v.a[1].op == "empty" and v.a[0].op == "seq" and v.a[0].a[0] is a or (v.op == "fold" and a in subterms(v.a[0])):
        el = T_("elem", a, 0)
        return all(c.op == "ins" and c.a[0].op == "acc" and uses_elem(c.a[1], "0") and uses_elem(c.a[2], "1") for _, c in v.a[2])
    return a in subterms(v) and v.op not in ("fold",)


def uses_elem(t, f):
    return t.op == "fld" and t.a[2] == f and t.a[0].op in ("elem", "fld", "app")


def wrote_all(t, m):
    """the serializer after writing every entry of the map"""
    if t.op != "fold" or t.a[0] is not T_("seq", m, "map") or len(t.a[2]) != 1:
        return False
    s = t.a[1]
    if not (s.op == "fld" and s.a[1] == "Ok" and isapp(s.a[0], "Serializer::serialize_seq") and s.a[0].a[1][0] is sym("arg2")):
        return False
    ln = s.a[0].a[1][1]
    if not (isadt(ln, "Option", "Some") and ln.a[3][0] is T_("len", m)):
        return False
    c = t.a[2][0][1]
    if not (c.op == "post" and isapp(c.a[0], "SerializeSeq::serialize_element")):
        return False
    acc, el = c.a[0].a[1]
    k = el.a[0][0] if el.op == "tup" else None
    return acc.op == "mref" and acc.a[0].op == "acc" and el.op == "tup" and k.op == "ekey" and k.a[0] is m and len(el.a[0]) == 2 and el.a[0][1] is T_("get", m, k)


def collected(S, x, lev, got):
    """got is the map filled by the loop with each pair read"""
    rec = lev.extra
    for m, mu in rec.mu.items():
        if got is not mu:
            continue
        if rec.inits[m].op != "empty":
            return False
        for p in rec.parts:
            nx = [e for e in p.events if e.kind == "call" and e.name.endswith("SeqAccess::next_element")]
            v = p.updates.get(m, mu)
            if len(nx) != 1 or v.op != "ins" or v.a[0] is not mu:
                return False
            pair = somev(okv(nx[0].ret))
            if v.a[1] is not F(pair, "0") or v.a[2] is not F(pair, "1"):
                return False
            px = X(x.I, interp.Out("part", p.st), x.root)
            if px.has(mu, v.a[1]) is not False:
                return False
        return bool(rec.parts)
    return False


# ---------------------------------------------------------------------------------------------------- C28
MAKE = "protocol::round::EntryPoint::make_round"


def seeded_hash(t):
    """(constant parts, other parts) of the data a digest is made of, if t is a whole digest"""
    t = inner(t)
    if t.op == "digest" and t.a[0].op == "hash":
        ps = t.a[0].a[0]
        return [p for p in ps if constant(p)], [p for p in ps if not constant(p)]
    return None


def constant(t):
    return t.op in ("bytes", "str", "int", "bool") or (t.op == "arr" and all(constant(u) for u in t.a[0]))


def nonempty(t):
    if t.op == "arr":
        return bool(t.a[0])
    return bool(str(t.a[0])) if t.a else False


@check("C28")
def c28(S):
    import evidence_rules as er
    seed = sym("arg1")
    n = 0
    for x in S.run("session::session::SessionId::from_seed"):
        if x.kind != "ret":
            S.xob("whole-seed", "", False, x, "panics")
            continue
        n += 1
        h = seeded_hash(x.val)
        S.xob("whole-seed", "", h is not None and h[1] == [seed], x, "the identifier is not the digest of the whole seed and nothing else: " + clip(pretty(x.val), 300))
        S.xob("domain-separated", "", h is not None and any(nonempty(c) for c in h[0]), x, "the seed is hashed without a fixed prefix of its own")
        if h is not None:
            parts = inner(x.val).a[0].a[0]
            S.xob("domain-separated", "before the seed", constant(parts[0]), x, "the separation does not come before the seed")
    S.need("whole-seed", "paths", n, 1)
    for x in S.run(impl_fn(S, "SessionId", "AsRef", "as_ref")):
        S.xob("whole-identifier", "as_ref", x.kind == "ret" and mref_of(x.val) is F(sym("arg1"), "0"), x, "does not give the whole identifier: " + clip(pretty(x.val), 200))
    # the entry point of a session
    n = m = 0
    sid, signer, ep = sym("arg2"), sym("arg3"), sym("arg4")
    for x in S.run(SESSION + "new"):
        for e in x.st.events():
            if e.kind == "call" and e.name == MAKE:
                n += 1
                a = e.args
                S.xob("given-to-the-entry-point", "entry point", a[0] is ep, x)
                S.xob("given-to-the-entry-point", "randomness", a[1].op == "mref" and a[1].a[0] is sym("arg1"), x)
                S.xob("given-to-the-entry-point", "shared randomness", mref_of(a[2]) in (sid, F(sid, "0")), x, clip(pretty(a[2]), 200))
                S.xob("given-to-the-entry-point", "identity", key_of(a[3], signer), x, clip(pretty(a[3]), 200))
        if x.ok() is not None:
            m += 1
            s = x.ok()
            S.xob("kept-by-the-session", "session identifier", F(s, "session_id") is sid, x)
            S.xob("kept-by-the-session", "identity", key_of(F(s, "verifier"), signer), x)
            S.xob("kept-by-the-session", "signer", F(s, "signer") is signer, x)
            r = F(s, "round")
            S.xob("kept-by-the-session", "round", any(isapp(u, MAKE) for u in subterms(r)), x, clip(pretty(r), 200))
    S.need("given-to-the-entry-point", "calls", n, 1)
    S.need("kept-by-the-session", "sessions", m, 1)
    self = sym("arg1")
    n = 0
    for x in S.run(SESSION + "finalize_round"):
        o = x.ok()
        if o is None or not isadt(o, "RoundOutcome", "AnotherRound"):
            continue
        s = F(o, "session")
        n += 1
        for f in ("session_id", "verifier", "signer"):
            S.xob("kept-in-every-round", f, F(s, f) is F(self, f) or (f == "verifier" and key_of(F(s, f), F(self, "signer"))), x, clip(pretty(F(s, f)), 200))
    S.need("kept-in-every-round", "next rounds", n, 1)
    for f in ("session_id", "verifier"):
        for x in S.run(SESSION + f):
            S.xob("kept-by-the-session", "accessor " + f, x.kind == "ret" and mref_of(x.val) is F(self, f), x)
    # combinators in between, and the verification of evidence
    g = S.borrow("C18", lambda b: b.rule in ("starts-with-first", "second-after-first", "routed-evidence") and ("randomness" in b.inst or "party" in b.inst or "identity" in b.inst))
    S.need("combined", "chain", len(g), 3)
    g = S.borrow("C12", lambda b: b.rule in ("presented", "passed-on") and b.inst == "shared randomness")
    S.need("verification", "shared randomness", len(g), 2)


def key_of(t, signer):
    return t.op == "app" and t.a[0].endswith("::verifying_key") and mref_of(t.a[1][0]) is signer


# ---------------------------------------------------------------------------------------------------- C27
import re
PROJ = re.compile(r"^<\w+ as session::session::SessionParameters>::WireFormat$")
CODECS = ("postcard", "serde_json", "bincode", "ciborium", "rmp", "rmp_serde", "serde_encoded_bytes", "serde_persistent_deserializer", "serde_asn1_der", "cbor")


def calls_of(prog):
    """every call of a named function in every body reachable from a function of the crate:
    (root, owner, callee, type arguments, resolved callee, span)"""
    for r in sorted(prog.roots):
        for k, b in prog.bodies(r)[1].items():
            for bl in b.blocks:
                t = bl["t"] if bl else None
                if t and t[0] == "call" and t[1][0] == "k" and isinstance(t[1][1], dict) and t[1][1].get("fn"):
                    f = t[1][1]["fn"]
                    yield r, k.split("#")[0], f["def"], f.get("args") or [], f.get("rdef"), t[5], t


def bare(a):
    return re.match(r"^\w+$", a) is not None


@check("C27")
def c27(S):
    seen = {"serialize": set(), "deserializer": set(), "boxed": set(), "typed": set()}
    callers = set()
    for r, owner, d, args, rd, span, t in calls_of(S.prog):
        if d.startswith("session::wire_format::WireFormat::"):
            m = d.split("::")[-1]
            ok = PROJ.match(args[0]) or (bare(args[0]) and generic_over_format(r, owner))
            seen.setdefault(m, set()).add(owner)
            S.ob("format-of-the-parameters", m, bool(ok), "%s in %s" % (span, owner), "%s is used as the wire format" % args[0])
        elif d == "protocol::wire_format::BoxedFormat::new":
            seen["boxed"].add(owner)
            ok = PROJ.match(args[0]) or (bare(args[0]) and generic_over_format(r, owner))
            S.ob("format-of-the-parameters", "boxed", bool(ok), "%s in %s" % (span, owner), "%s is used as the wire format" % args[0])
        elif d.endswith("serde::de::Deserialize::deserialize") and len(args) > 1:
            seen["typed"].add(owner)
            der = args[1] if "as serde::de::Deserialize" not in owner else ""
            ok = not der or "session::SessionParameters>::WireFormat as session::wire_format::WireFormat>::Deserializer" in der or (bare(der) and der != "str")
            S.ob("no-other-decoder", "serde", ok, "%s in %s" % (span, owner), "decodes with %s" % der)
        c = d.lstrip("<").split("::")[0]
        if c in CODECS and not in_dev(owner):
            S.ob("no-other-decoder", c, False, "%s in %s" % (span, owner), "calls %s directly" % d)
    for k, c in seen.items():
        S.need("format-of-the-parameters", k, len(c), 1)
    # who can put a format into a box
    n = 0
    for r in sorted(S.prog.roots):
        for k, b in S.prog.bodies(r)[1].items():
            for bl in b.blocks:
                for s in (bl["s"] if bl else ()):
                    if s[0] == "=" and isinstance(s[2], list) and s[2][0] in ("adt", "aggr") and str(s[2][1]).endswith("wire_format::BoxedFormat"):
                        n += 1
                        S.ob("boxed-as-a-whole", "constructed", k.split("#")[0] == "protocol::wire_format::BoxedFormat::new", str(s[-1]), "%s builds a format of its own" % k.split("#")[0])
    S.need("boxed-as-a-whole", "constructions", n, 1)
    for k, b in S.prog.bodies(root_of(S, "protocol::wire_format::BoxedFormat::new"))[1].items():
        got = set()
        for l in b.locals:
            for m in re.finditer(r"(SerializerObject|DeserializerFactoryObject)<([^<>]*|<.*?>::\w+)>", str(l)):
                got.add((m.group(1), m.group(2)))
        if k.split("#")[0] == "protocol::wire_format::BoxedFormat::new":
            fs = {f for _, f in got}
            S.ob("boxed-as-a-whole", "one format", len(fs) == 1 and len(got) == 2, k.split("#")[0], "the two halves are %s" % sorted(got))
    a1, a2 = sym("arg1"), sym("arg2")
    W = "protocol::wire_format::"
    for x in S.run(W + "BoxedFormat::new"):
        v = x.val
        S.xob("boxed-as-a-whole", "new", x.kind == "ret" and isadt(F(v, "serializer"), "SerializerObject") and isadt(F(v, "deserializer_factory"), "DeserializerFactoryObject"), x)
    same = {
        W + "BoxedFormat::serialize": lambda v: isapp(v, "DynSerializer::serialize") and v.a[1] == (F(a1, "serializer"), a2),
        impl_fn(S, "SerializerObject", "DynSerializer", "serialize"): lambda v: isapp(v, "WireFormat::serialize") and v.a[1] == (a2,),
        impl_fn(S, "DeserializerFactoryObject", "DynDeserializerFactory", "make_erased_deserializer"): lambda v: decoder_over(v, a2),
    }
    for root, p in same.items():
        n = 0
        for x in S.run(root):
            n += 1
            v = x.val
            ok = x.kind == "ret" and (p(v) or rewrapped(x, v, p))
            S.xob("whole-value", short_(root), ok, x, "not the format applied to the whole argument: " + clip(pretty(v) if v is not None else x.kind, 200))
        S.need("whole-value", short_(root), n, 1)
    raw = lambda f, b: (lambda v: isapp(v, "erased_serde::de::deserialize") and isapp(mref_of(v.a[1][0]), "DynDeserializerFactory::make_erased_deserializer")
                        and mref_of(v.a[1][0]).a[1] == (F(f, "deserializer_factory"), b))
    enc = lambda f, b: (lambda v: isapp(v, "DynSerializer::serialize") and v.a[1] == (F(f, "serializer"), b))
    PM = "protocol::message::ProtocolMessagePart::"
    payload = None
    reads = [
        (W + "BoxedFormat::deserialize", raw(a1, a2)),
        (PM + "deserialize", lambda v: any(raw(a2, F(somev(m), "0"))(v) for m in (app_of(PM + "maybe_message", a1),))),
        ("protocol::dyn_evidence::SerializedProtocolError::deserialize", raw(a2, F(a1, "0"))),
        ("session::message::SerializedSignature::deserialize", lambda v: isapp(v, DESER) and isapp(v.a[1][0], WF_DESER) and v.a[1][0].a[1] == (F(a1, "0"),)),
    ]
    for root, p in reads:
        n = 0
        for x in S.run(root):
            if x.kind != "ret":
                continue
            o, e = x.ok(), x.err()
            if o is not None and not any(isadt(u, "NoMessage") for u in subterms(o)):
                n += 1
                S.xob("whole-value", "read " + root.split("::")[-2], o.op == "fld" and o.a[1] == "Ok" and p(o.a[0]), x, "not the decoded whole: " + clip(pretty(o), 300))
        S.need("whole-value", "read " + root.split("::")[-2], n, 1)
    writes = [
        (PM + "new", enc(a1, a2), lambda o: isapp(o, PM + "new_inner") and isadt(o.a[1][0], "Option", "Some") and F(o.a[1][0].a[3][0], "0")),
        ("session::message::SerializedSignature::new", lambda v: isapp(v, WF_SER) and v.a[1] == (a1,), lambda o: isadt(o, "SerializedSignature") and F(o, "0")),
        (generic_impl(S, "DynProtocolError", "serialize"), enc(a2, a1), lambda o: isadt(o, "SerializedProtocolError") and F(o, "0")),
    ]
    for root, p, out in writes:
        n = 0
        nm = "write " + (root.split("::")[-2] if not root.startswith("<") else "SerializedProtocolError")
        for x in S.run(root):
            if x.kind != "ret":
                continue
            o = x.ok()
            if o is not None and not isapp(o, PM + "none"):
                b = out(o)
                n += 1
                S.xob("whole-value", nm, bool(b) and b.op == "fld" and b.a[1] == "Ok" and p(b.a[0]), x, "not the encoded whole: " + clip(pretty(o), 300))
        S.need("whole-value", nm, n, 1)
    # formats shipped with the library: both directions by the same codec
    n = 0
    for r in sorted(S.prog.roots):
        nm = norm(r.split("#[")[0])
        if " as session::wire_format::WireFormat>::" in nm:
            n += 1
            cs = {d.lstrip("<").split("::")[0] for rr, o, d, a, rd, sp, t in calls_in(S.prog, r)} & set(CODECS)
            cs -= {"serde_persistent_deserializer"}
            own = nm.split(" as ")[0]
            other = set()
            for r2 in S.prog.roots:
                if norm(r2.split("#[")[0]).startswith(own + " as session::wire_format::WireFormat>::"):
                    other |= {d.lstrip("<").split("::")[0] for rr, o, d, a, rd, sp, t in calls_in(S.prog, r2)} & set(CODECS)
            other -= {"serde_persistent_deserializer"}
            S.ob("same-codec", own.split("::")[-1] + " " + short_(nm), len(other) <= 1, nm, "encodes and decodes with %s" % sorted(other))
    # the metadata as received is what is decoded and signed: see C02
    g = S.borrow("C02", lambda b: True)
    S.need("signed-encoding", "C02", len(g), 3)


def calls_in(prog, root):
    for k, b in prog.bodies(root)[1].items():
        for bl in b.blocks:
            t = bl["t"] if bl else None
            if t and t[0] == "call" and t[1][0] == "k" and isinstance(t[1][1], dict) and t[1][1].get("fn"):
                f = t[1][1]["fn"]
                yield root, k.split("#")[0], f["def"], f.get("args") or [], f.get("rdef"), t[5], t


def in_dev(owner):
    return owner.lstrip("<").startswith("dev::") or "<dev::" in owner


def generic_over_format(root, owner):
    """a format chosen by the caller of the analysed function itself (its callers are checked where they are)"""
    return norm(root.split("#[")[0]) == norm(owner) or owner in norm(root) or "SerializerObject" in owner or "DeserializerFactoryObject" in owner


def root_of(S, name):
    for r in S.prog.roots:
        if norm(r.split("#[")[0]) == name:
            return r
    raise EngineError("function %s not found" % name)


def generic_impl(S, trait, method):
    """the blanket implementation of a trait"""
    r = {norm(k.split("#[")[0]) for k in S.prog.roots}
    r = [n for n in r if re.match(r"^<\w+ as [\w:]*\b%s(<.*>)?>::%s$" % (trait, method), n)]
    if len(r) != 1:
        raise EngineError("blanket implementation of %s::%s: %d found" % (trait, method, len(r)))
    return r[0]


def app_of(name, *args):
    return app(name, *args)


def decoder_over(v, b):
    while v.op == "app" and not isapp(v, WF_DESER) and len(v.a[1]) == 1:
        v = v.a[1][0]
    return isapp(v, WF_DESER) and v.a[1] == (b,)


def rewrapped(x, v, p):
    """Ok / Err of the result of a call that is itself as required"""
    for w, f in (("Ok", x.ok()), ("Err", x.err())):
        if f is not None and f.op == "fld" and f.a[1] == w and p(f.a[0]):
            return True
    return False
