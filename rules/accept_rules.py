"""C35: a correct message is always accepted, and the handling of one party's messages does not depend on the others."""
from session_rules import *
from progress_rules import *

APM_ = SESSION + "add_processed_message"


def stray(x, t, roots, ours):
    """the occurrences of the bookkeeping `roots` in t other than a party's own entries"""
    out, stack, done = [], [t], set()
    while stack:
        u = stack.pop()
        if not isinstance(u, T) or id(u) in done:
            continue
        done.add(id(u))
        if u.op in ("has", "get") and rooted(u.a[0], roots) and any(u.a[1] is k or x.same(u.a[1], k) for k in ours):
            continue
        if u.op == "ekey" and any(x.same(u, k) for k in ours):
            continue
        if rooted(u, roots):
            out.append(u)
            continue
        stack.extend(kids(u))
    return out


def kids(u):
    return kids_of(u.a)


def rooted(t, roots):
    while True:
        if t in roots:
            return True
        if t.op != "fld":
            return False
        t = t.a[0]


def own_updates(x, t, M, ours):
    """t results from the collection M by changing entries of `ours` only; the values stored"""
    vals = []
    for _ in range(60):
        if t is M:
            return vals
        if t.op in ("ins", "rem") and any(t.a[1] is k or x.same(t.a[1], k) for k in ours):
            vals += [v for v in t.a[2:] if isinstance(v, T)]
            t = t.a[0]
        else:
            return None
    return None


def independent(S, root, ours_of, roots, inst, ignore=()):
    n = 0
    for x in S.run(root):
        if x.kind != "ret":
            continue
        n += 1
        ours = ours_of(x)
        bad = []
        for f, v in x.facts.items():
            if isinstance(f, T):
                bad += stray(x, f, roots, ours)
            else:
                for u in list(kids_of(f)) + list(kids_of(v)):
                    bad += stray(x, u, roots, ours)
        S.xob("depends-on-own-record-only", inst, not bad, x, "what happens depends on %s" % (clip(pretty(bad[0]), 200) if bad else ""))
        post = x.post(2)
        if post is A2:
            S.xob("affects-own-record-only", inst, True, x)
        for f in acc_fields(S):
            vals = own_updates(x, F(post, f), F(A2, f), ours)
            if not S.xob("affects-own-record-only", "%s: %s" % (inst, f), vals is not None, x,
                         "entries of other parties may change: %s" % clip(pretty(F(post, f)), 300)):
                continue
            b2 = [b for v in vals for b in stray(x, v, roots, ours)]
            S.xob("depends-on-own-record-only", "%s: stored in %s" % (inst, f), not b2, x, "what is stored depends on %s" % (clip(pretty(b2[0]), 200) if b2 else ""))
        if x.val is not None:
            b3 = stray(x, x.val, roots, ours)
            S.xob("depends-on-own-record-only", inst + ": answer", not b3, x, "the answer depends on %s" % (clip(pretty(b3[0]), 200) if b3 else ""))
    S.need("depends-on-own-record-only", inst, n, 20)


def kids_of(f):
    st = [f]
    while st:
        v = st.pop()
        if isinstance(v, T):
            yield v
        elif isinstance(v, (tuple, list)):
            st.extend(v)
        elif isinstance(v, dict):
            st.extend(v.keys())


ACC = ["still_have_not_sent_messages", "expecting_messages_from", "processing", "payloads", "artifacts", "cached", "echo_broadcasts",
       "normal_broadcasts", "direct_messages", "provable_errors", "unprovable_errors"]


def acc_fields(S):
    return ACC


@check("C35")
def c35(S):
    cur = round_id_of(S)
    n = 0
    for x in S.run(SESSION + "preprocess_message"):
        if x.kind != "ret" or x.ok() is None or handed(x):
            continue
        n += 1
        S.xob("correct-is-accepted", "rejected", reject_reason(x, cur) is not None, x,
              "rejected although nothing is known to be wrong with the message or its sender")
    S.need("correct-is-accepted", "rejections", n, 20)
    # what is handed out is what was accepted, delivered or not
    trans = F(A1, "transcript")
    independent(S, SESSION + "preprocess_message", lambda x: [A3], [A2, trans], "preprocessing")
    frm = F(A3, "message.from")
    independent(S, APM_, lambda x: [frm] + third(x), [A2], "recording")
    m = 0
    for x, s, cm, base, push, skip in deliveries(S):
        if cm is None or buffer_key(base) is None:
            continue
        k = buffer_key(base)
        ti, ci = next_ids(s)
        rid = F(ti, "id")
        C = base.a[0]
        keys = party_keys(k, get(get(C, k), rid))
        for y in skip:
            m += 1
            S.xob("correct-is-delivered", "skipped element", y.has(get(C, k), rid) is False or banned_next(y, s, keys) is True
                  or dec_has_any(y, F(ci, "expecting_messages_from"), keys) is False, y,
                  "a message received early is not delivered although nothing is known against its sender")
    S.need("correct-is-delivered", "skipped cases", m, 4)


def third(x):
    """the party against which contradictory broadcasts are recorded"""
    p = F(A3, "processed")
    e = fld(p, "Err", "0")
    e = fld(fld(e, "Echo", "0"), "MismatchedBroadcasts", "0")
    g = F(e, "guilty_party")
    return [g] if any(v is True and isinstance(f, T) and f.op == "isvar" and f.a[1] == "MismatchedBroadcasts" for f, v in x.facts.items()) else []
