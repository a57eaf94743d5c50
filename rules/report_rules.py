"""C15: the report reflects what happened in all rounds."""
from lib import *
from session_rules import *
from message_rules import value_at
from echo_rules import find_adt, finalize_calls

def isempty(t):
    return T_("isempty", t)


APM = SESSION + "add_processed_message"
FAULTS = ("provable_errors", "unprovable_errors")
NOTSENT = "still_have_not_sent_messages"


def merged(x, t, old, new):
    """map t is `old` together with all entries of `new`"""
    if t is new and x.yes(isempty(old)) or t is old and x.yes(isempty(new)):
        return True
    if members(t) != frozenset([("set", old), ("set", new)]):
        return False
    seen = set()
    while t.op == "fold":
        src = t.a[0].a[0]
        for c, v in t.a[2]:
            if v.op != "ins" or v.a[1] is not ekey0(src) or v.a[2] is not get(src, v.a[1]):
                return False
        seen.add(src)
        t = t.a[1]
    return seen <= {old, new} and (t is old or t is new or t.op == "empty")


def carried(S, x, what, get_field, acc, rid, key):
    """the faults and missing parties of the accumulator are merged into what was there before"""
    for f in FAULTS:
        S.xob("faults-carried", "%s %s" % (key, f), merged(x, get_field(f), F(A1, "transcript." + f), F(acc, f)), x,
              "not the union of the earlier faults and those of this round: %s" % clip(pretty(get_field(f)), 400))
    m, old, mine = get_field("missing_messages"), F(A1, "transcript.missing_messages"), F(acc, NOTSENT)
    d = x.dec(isempty(mine))
    if d is True and m is old:
        ok = True
    else:
        ok = m.op == "ins" and m.a[0] is old and x.same(m.a[1], rid) and same_value(x, m.a[2], mine)
    S.xob("missing-carried", key, ok, x, "the parties that sent nothing are not recorded under this round: %s" % clip(pretty(m), 300))


@check("C15")
def c15(S):
    rid = round_id_of(S)
    n = {}
    for fn, acc, outcome in (("finalize_round", A3, None), ("terminate", A2, "Terminated"), ("terminate_due_to_errors", A2, "NotEnoughMessages")):
        for x in S.run(SESSION + fn):
            if x.kind != "ret":
                S.xob("report-faithful", fn + " panic", False, x)
                continue
            v = x.ok()
            if v is None:
                continue
            another = fn == "finalize_round" and v.op == "adt" and v.a[1] == "AnotherRound"
            if another:
                n["next"] = n.get("next", 0) + 1
                t = F(unwrap_session(fld(v, "AnotherRound", "session")), "transcript")
                carried(S, x, "next round", lambda f: F(t, f), acc, rid, "next round")
                for f in ("normal_broadcasts", "direct_messages", "echo_broadcasts"):
                    m, old = F(t, f), F(A1, "transcript." + f)
                    ok = m.op == "ins" and m.a[0] is old and x.same(m.a[1], rid)
                    if ok and f != "echo_broadcasts":
                        ok = same_value(x, m.a[2], F(acc, f))
                    elif ok:
                        ok = only_inserted(x, F(acc, f), m.a[2])
                    S.xob("messages-carried", f, ok, x, "the messages of this round are not kept for later evidence: %s" % clip(pretty(m), 300))
            else:
                rep = find_adt(v, "SessionReport")
                if not S.xob("report-faithful", fn, rep is not None, x):
                    continue
                n[fn] = n.get(fn, 0) + 1
                carried(S, x, fn, lambda f: F(rep, f), acc, rid, fn)
                o = F(rep, "outcome")
                if outcome:
                    S.xob("outcome", fn, isadt(o, "SessionOutcome", outcome), x, clip(pretty(o), 200))
                else:
                    c = finalize_calls(x)
                    ok = isadt(o, "SessionOutcome", "Result") and len(c) == 1 and o.a[3][0] is fld(okv(c[0]), "Result", "0") \
                        and x.yes(isvar(okv(c[0]), "Result"))
                    S.xob("outcome", fn, ok, x, "not the protocol's result: %s" % clip(pretty(o), 200))
            if fn == "finalize_round":
                for c in finalize_calls(x):
                    r = x.dec(isvar(okv(c), "Result"))
                    S.xob("outcome", "decided", r is not None and r is not another, x, "the protocol's outcome is not taken into account")
    for k in ("next", "finalize_round", "terminate", "terminate_due_to_errors"):
        S.need("report-faithful", k, n.get(k, 0), 1)
    # what counts as not having sent anything
    for x in S.run(SESSION + "make_accumulator"):
        if x.kind == "ret":
            S.xob("not-sent-exact", "initially all expected", F(x.val, NOTSENT) is F(A1, "communication_info.expecting_messages_from"), x)
            for f in FAULTS:
                S.xob("faults-carried", "initially none " + f, F(x.val, f).op == "empty", x)
    for f in acc_functions(S):
        for x in S.run(f):
            if x.kind != "ret":
                continue
            for i in acc_args(S, f):
                pre, post = F(sym("arg%d" % i), NOTSENT), F(x.post(i), NOTSENT)
                if f == APM:
                    ok = post is pre or (post.op == "rem" and post.a[0] is pre and x.same(post.a[1], F(A3, "message.from")))
                    if x.ok() is not None:
                        S.xob("not-sent-exact", "processed message", post is not pre, x, "a sender whose message was processed still counts as missing")
                else:
                    ok = post is pre
                S.xob("not-sent-exact", f.split("::")[-1], ok, x)
    for x in S.run(SESSION + "new"):
        v = x.ok()
        if v is not None:
            t = F(v, "transcript")
            for f in FAULTS + ("missing_messages", "echo_broadcasts", "normal_broadcasts", "direct_messages"):
                S.xob("report-faithful", "starts empty", F(t, f).op == "empty", x, f)
    for x in S.run("session::transcript::SessionReport::result"):
        o = F(A1, "outcome")
        d = x.dec(isvar(o, "Result"))
        if x.val is not None and isadt(x.val, "Option", "Some"):
            S.xob("result-accessor", "some", d is True and x.val.a[3][0] is fld(o, "Result", "0"), x)
        else:
            S.xob("result-accessor", "none", d is False and isadt(x.val, "Option", "None"), x)
