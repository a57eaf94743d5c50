"""C39: the helpers and constructors offered to protocol authors do what they say."""
from lib import *
from session_rules import *

H = "utils::traits::"


def all_entries(S, x, rule, inst, value, src_ok):
    """value is a map with exactly one entry per entry of the source; returns the states and entries"""
    e = entries(x, value)
    if not S.xob(rule, inst + ": made of the entries of the source", e is not None and src_ok(e[0]), x, clip(pretty(value), 200)):
        return []
    S.xob(rule, inst + ": no entry is left out", not e[2], x)
    return e[1]


@check("C39")
def c39(S):
    n = {}

    def runs(name, f):
        for x in S.run(f):
            n[name] = n.get(name, 0) + 1
            if S.xob("helper-no-panic", name, x.isret(), x, str(x.info)[:150] if not x.isret() else ""):
                yield x

    for ty in ("BTreeSet", "BTreeMap"):
        for x in runs("without " + ty, impl_fn(S, ty, "Without", "without")):
            base, gone = without(x.val)
            if base is A1 and not gone and x.has(A1, A2) is False:
                ok = True
            elif not (base is A1 and len(gone) == 1 and x.same(gone[0], A2)):
                # removed by filtering
                e = entries(x, x.val)
                ok = e is not None and e[0] is A1 and all(y.no(eq(k, A2)) for y, k, v in e[1]) and all(y.yes(eq(ekey0(A1), A2)) for y in e[2])
            else:
                ok = True
            S.xob("without-removes-one", ty, ok, x, clip(pretty(x.val), 200))
    for tr, m in (("MapValues", "map_values"), ("MapValuesRef", "map_values_ref")):
        for x in runs(m, impl_fn(S, "BTreeMap", tr, m)):
            for y, k, v in all_entries(S, x, "map-values", m, x.val, lambda s: s is A1):
                S.xob("map-values", m + ": keys kept", k is ekey0(A1), y, clip(pretty(k), 100))
                S.xob("map-values", m + ": the function applied to the value of the key", v is not None and v.op in ("callback", "app") and any(
                    same_value(y, a, get(A1, ekey0(A1))) for a in callback_args(v)), y, clip(pretty(v), 200))
    for x in runs("verify_that", H + "verify_that"):
        good = x.ok() is not None
        n["verify_that", good] = 1
        S.xob("condition-verified", "ok iff it holds", x.dec(A1) is good, x)
        if not good:
            S.xob("condition-verified", "invalid evidence otherwise", isadt(x.err(), "EvidenceError", "InvalidEvidence"), x)
    for tr, m, kind in (("GetOrLocalError", "get_or_local_error", lambda t: isadt(t, "LocalError")),
                        ("GetOrInvalidEvidence", "get_or_invalid_evidence", lambda t: isadt(t, "EvidenceError", "InvalidEvidence"))):
        for x in runs(m, impl_fn(S, "BTreeMap", tr, m)):
            good = x.ok() is not None
            n[m, good] = 1
            S.xob("lookup", m + ": found iff present", x.has(A1, A3) is good, x)
            if good:
                S.xob("lookup", m + ": the value of the key", same_value(x, x.ok(), get(A1, A3)), x, clip(pretty(x.val), 150))
            else:
                S.xob("lookup", m + ": the right kind of error", kind(x.err()), x, clip(pretty(x.val), 150))
    # round identifiers and numbers
    for f in [g for g in S.fnix if g.endswith("round_id::RoundId as core::cmp::PartialEq<u8>>::eq")]:
        for x in runs("eq", f):
            num = [u for u in subterms(x.val) if isadt(u, "RoundId")]
            ok = x.val.op == "eq" and A1 in x.val.a and len(num) == 1 and num[0] in x.val.a and plain_round(num[0], A2)
            if not ok:
                # field by field
                known = (x.dec(eq(F(A1, "round"), A2)), x.dec(empty(F(A1, "groups"))), x.no(F(A1, "is_echo")) or (False if x.yes(F(A1, "is_echo")) else None))
                ok = x.val is FALSE and False in known or x.val is TRUE and all(known) or known[:2] == (True, True) and x.val is bnot(F(A1, "is_echo"))
            S.xob("round-number", "an identifier equals the number of an ungrouped round", ok, x, clip(pretty(x.val), 150))
    for f in ("protocol::round_id::RoundId::new", impl_fn(S, "RoundId", "From", "from")):
        for x in runs("round id", f):
            S.xob("round-number", "identifier of a number", plain_round(x.val, A1), x, clip(pretty(x.val), 150))
    for x in runs("regular", "protocol::round::CommunicationInfo::regular"):
        for f in ("message_destinations", "expecting_messages_from"):
            S.xob("regular-communication", f + ": all the other parties", members(F(x.val, f)) == frozenset([("set", A1)]) or F(x.val, f) is A1, x, clip(pretty(x.val), 200))
        S.xob("regular-communication", "participates in the echo round as usual", isadt(F(x.val, "echo_round_participation"), "EchoRoundParticipation", "Default"), x)
    # the serializable map is the map
    for x in runs("map from", impl_fn(S, "SerializableMap", "From", "from")):
        S.xob("map-wrapper", "from a map", F(x.val, "0") is A1, x)
    for x in runs("map into", impl_fn(S, "BTreeMap", "From", "from")):
        S.xob("map-wrapper", "into the map", x.val is F(A1, "0"), x)
    for m in ("deref", "deref_mut"):
        for x in runs(m, impl_fn(S, "SerializableMap", "Deref" if m == "deref" else "DerefMut", m)):
            S.xob("map-wrapper", m, x.val is F(A1, "0") or m == "deref_mut" and "('arg', 1)" in pretty(x.val) and pretty(x.val).rstrip(")").endswith(".0"), x, clip(pretty(x.val), 100))
    for x in runs("from_iter", impl_fn(S, "SerializableMap", "FromIterator", "from_iter")):
        m = F(x.val, "0")
        parts = m.a[2] if m.op == "fold" and m.a[1].op == "empty" else ()
        S.xob("map-wrapper", "collected from all the entries", m.op == "fold" and A1 in subterms(m.a[0]) and "skip" not in pretty(m.a[0]) and "take" not in pretty(m.a[0]), x, clip(pretty(x.val), 150))
        for c, v in parts:
            ok = v.op == "ins" and v.a[0].op == "acc" and all(t.op == "fld" and t.a[2] == f for t, f in ((v.a[1], "0"), (v.a[2], "1"))) and v.a[1].a[0] is v.a[2].a[0]
            S.xob("map-wrapper", "collected: keys and values kept", ok, x, clip(pretty(v), 150))
    for x in runs("ok", "session::session::PreprocessOutcome::ok"):
        tp = x.dec(isvar(A1, "ToProcess"))
        n["ok", tp] = 1
        if tp:
            S.xob("outcome", "a message to process is handed out", isadt(x.val, "Option", "Some") and x.val.a[3][0] is fld(A1, "ToProcess", "0"), x)
        else:
            S.xob("outcome", "nothing otherwise", isadt(x.val, "Option", "None"), x)
    for k in ("without BTreeSet", "without BTreeMap", "map_values", "map_values_ref", ("verify_that", True), ("verify_that", False), ("get_or_local_error", True),
              ("get_or_local_error", False), ("get_or_invalid_evidence", True), ("get_or_invalid_evidence", False), "eq", "round id", "regular", "map from",
              "map into", "deref", "deref_mut", "from_iter", ("ok", True)):
        S.need("helper-no-panic", str(k), n.get(k, 0), 1)


def plain_round(t, num):
    return isadt(t, "RoundId") and F(t, "round") is num and F(t, "groups").op == "empty" and F(t, "is_echo") is FALSE


def callback_args(v):
    return [a for u in subterms(v) if u.op in ("callback", "app") for x in u.a for a in (x if isinstance(x, tuple) else (x,)) if hasattr(a, "op")]


