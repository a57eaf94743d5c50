"""C32, C33: the asynchronous test runner and the test helpers (dev/tokio.rs, dev/misbehave.rs, dev/run_sync.rs)."""
from lib import *
from runner_rules import flat, plain, short, select_panic, failure_reason, RUN, PAR, API, mval, disabled

RUN_ASYNC = "dev::tokio::run_async"
SNEW = SESSION + "new"


def opaque32(n, f):
    return n in API or n in (RUN, PAR, SNEW)


def is_recv(t):
    return t.op == "app" and (t.a[0].endswith("Receiver::recv") or t.a[0].endswith("Receiver::blocking_recv"))


def is_try(t):
    return t.op == "app" and t.a[0].endswith("Receiver::try_recv")


def is_room(t):
    """waits for room in a channel"""
    return t.op == "app" and t.a[0].split("::")[-2:] in (["Sender", "send"], ["Sender", "reserve"], ["Sender", "reserve_owned"])


def awaited(e):
    return e.args[0] if e.args else None


class Forward:
    """what the dispatcher does with the messages it is given"""

    def __init__(self, S, x):
        self.S, self.x = S, x
        self.bad = {}
        self.sent = self.got = 0

    def v(self, rule, ok, x, msg, span=""):
        k = (rule, span)
        if k not in self.bad or (self.bad[k][0] and not ok):
            self.bad[k] = (bool(ok), x, msg)

    def acquired(self, evs, x):
        out = []
        for e in evs:
            if e.kind == "await" and awaited(e) is not None and is_recv(awaited(e)) and x.dec(isvar(e.ret, "Some")) is not False:
                m = fld(e.ret, "Some", "0")
                out.append((m, e))
            elif e.kind == "call" and is_try(e.ret) and x.dec(isvar(e.ret, "Ok")) is not False:
                out.append((fld(e.ret, "Ok", "0"), e))
            elif e.kind == "vremove":
                out.append((e.ret, e))
        return out

    def walk(self, v, base, recs):
        """(added, removed, ok): how the queue's value v came from its value at the start of the frame"""
        add, rem = [], []
        for _ in range(200):
            if v is base or base is None and v.op == "empty":
                return add, rem, True
            if v.op == "push":
                add.append(v.a[1])
                v = v.a[0]
            elif v.op == "vrem":
                rem.append(T_("idx", v.a[0], v.a[1]))
                v = v.a[0]
            elif v.op == "popped":
                rem.append(T_("last", v.a[0]))
                v = v.a[0]
            elif v.op == "mu" and v in recs:
                v = recs[v]
            else:
                return add, rem, False
        return add, rem, False

    def frame(self, evs, x, queues, failed, ends, holds):
        """queues: {location: (value at the start, value at the end)} of this frame; holds: the queues are known to be
        empty whenever the frame starts"""
        recs = {}
        pend = []
        rooms = {}
        for e in evs:
            if e.kind == "loop":
                recs.update({mu: e.extra.inits[m] for m, mu in e.extra.mu.items()})
                self.loop(e.extra, x)
        sent = []
        for i, e in enumerate(evs):
            if e.kind == "call" and e.ret is not None and (is_recv(e.ret) or is_room(e.ret)):
                pend.append(e.ret)
            elif e.kind == "poll":
                off = disabled(e, lambda y: is_recv(y) or is_room(y))
                pend = [p for p in pend if p not in off]
            elif e.kind == "await":
                f = awaited(e)
                if f is not None and is_room(f):
                    self.v("no-self-deadlock", any(is_recv(p) for p in pend), x,
                           "waits for room in a node's channel without receiving, while the node may be waiting for room in the dispatcher's", e.span)
                elif f is not None and is_recv(f):
                    self.v("no-waiting-while-holding", holds or any(is_room(p) for p in pend), x,
                           "waits for further messages while holding undelivered ones", e.span)
                pend = [p for p in pend if p is not f]
                if f is not None and f.op == "app" and f.a[0].endswith("Sender::send"):
                    sent.append((f.a[1][0], f.a[1][1], e, x.dec(isvar(e.ret, "Ok"))))
            elif e.kind == "call" and e.name.endswith("::send") and e.name.split("::")[-2] in ("Permit", "OwnedPermit"):
                ch = None
                for s in subterms(e.args[0]):
                    if s.op == "app" and "Sender::reserve" in s.a[0]:
                        ch = s.a[1][0]
                sent.append((ch, e.args[1], e, True))
            elif e.kind == "call" and e.name.endswith("Sender::try_send") or e.kind == "call" and e.name.endswith("UnboundedSender::send"):
                sent.append((e.args[0], e.args[1], e, x.dec(isvar(e.ret, "Ok"))))
        got = self.acquired(evs, x)
        self.got += len(got)
        if failed:
            return
        out = []
        for ch, m, e, ok in sent:
            if ok is False:
                self.v("failure-reported", False, x, "a message could not be delivered and this is not reported", e.span)
                continue
            self.v("failure-reported", ok is True, x, "it is not checked whether a message could be delivered", e.span)
            src = [g for g, _ in got if isadt(m, "MessageIn") and F(g, "from") is m.a[3][0] and F(g, "message") is m.a[3][1]]
            self.v("as-sent", len(src) >= 1, x, "what is delivered is not a message taken over unchanged, as coming from its sender", e.span)
            if src:
                self.sent += 1
                g = src[0]
                out.append(g)
                to = ch is not None and ch.op == "get" and x.same(ch.a[1], F(g, "to"))
                self.v("to-its-addressee", to, x, "a message is delivered to another node than its addressee", e.span)
        add = []
        for m, (b, v) in queues.items():
            a, r, ok = self.walk(v, b, recs)
            if any(isinstance(y, T) and y in [g for g, _ in got] for y in a) or r:
                self.v("nothing-lost", ok, x, "messages in the queue are lost")
            add += a
        for g, e in got:
            n = sum(1 for y in out + add if y is g)
            self.v("exactly-once", n == 1, x, "a message is delivered or kept %d times instead of once" % n, e.span)
            if ends and any(y is g for y in add):
                self.v("nothing-lost", False, x, "the dispatcher stops with a message in its queue", e.span)
        for y in add:
            self.v("exactly-once", any(y is g for g, _ in got), x, "something is put into the queue that has not just been received")

    def loop(self, rec, x):
        qs = [m for m in rec.mu if any(self.isqueue(p.updates.get(m)) for p in rec.parts) or self.queue_like(rec, m)]
        holds = {}
        for m in qs:
            i = rec.inits[m]
            ok = i.op == "empty" or X(x.I, interp.Out("part", rec.prefix), x.root).yes(T_("isempty", i))
            for p in rec.parts:
                v = p.updates.get(m, rec.mu[m])
                y = X(x.I, interp.Out("part", p.st), x.root)
                ok = ok and (v is rec.mu[m] or v.op == "empty" or y.yes(T_("isempty", v)))
            holds[m] = ok
        for p in rec.parts:
            y = X(x.I, interp.Out("part", p.st), x.root)
            if not rec.its:
                moves = any(e.kind == "await" for e in flat(p.events)) or any(
                    e.kind == "call" and e.ret is not None and is_try(e.ret) and y.dec(isvar(e.ret, "Ok")) is True for e in p.events) or any(
                    p.updates.get(m) is not None and any(t.op in ("vrem", "popped") for t in subterms(p.updates[m])) for m in qs) or any(
                    e.kind == "loop" for e in p.events)
                self.v("no-busy-waiting", moves, y, "goes around without having received anything, delivered anything or waited", p.events[-1].span if p.events else None)
            self.frame(p.events, y, {m: (rec.mu[m], p.updates.get(m, rec.mu[m])) for m in rec.mu}, False, False, all(holds.values()))
        return holds

    def isqueue(self, v):
        return v is not None and v.op in ("push", "vrem", "popped")

    def queue_like(self, rec, m):
        # changed by an inner loop only
        return any(p.updates.get(m) is not None and p.updates[m].op == "mu" for p in rec.parts) and \
            any(self.isqueue(q.updates.get(k)) for p in rec.parts for e in p.events if e.kind == "loop" for q in e.extra.parts for k in q.updates if k == m)


def in_range(x):
    """the panic concerns an index drawn from the range it is used for"""
    for t, b in x.facts.items():
        if isinstance(t, T) and t.op == "lt" and b is False and t.a[1].op == "len" and t.a[0].op == "app" and t.a[0].a[0].endswith("::gen_range"):
            r = t.a[0].a[1][1]
            fs = r.a[3] if r.op == "adt" else ()
            if len(fs) == 2 and fs[0] is INT(0) and fs[1] is t.a[1] and short(r.a[0]) == "Range":
                return True
    return False


def dispatcher(S, x, sp):
    n = [0, 0, 0]
    W = None
    outs = sp.extra[0]
    for o in outs:
        y = X(x.I, o, x.root)
        if W is None:
            W = Forward(S, y)
        if y.kind == "panic":
            S.xob("no-panic", "dispatcher", select_panic(y) or in_range(y), y, "the dispatcher panics")
            continue
        if y.ok() is None and y.err() is not None:
            S.xob("error-has-a-cause", "dispatcher", any(True for _ in failure_reason(y, y.val)) or any(
                isinstance(t, T) and t.op == "has" and b is False for t, b in y.facts.items()), y, "the dispatcher fails for no reason")
            W.frame(y.st.events(), y, {}, True, True, True)
            n[1] += 1
            continue
        n[0] += 1
        evs = y.st.events()
        tops = [e for e in evs if e.kind == "loop"]
        hold = all(all(W.loop(e.extra, y).values()) for e in tops)
        W.v("nothing-lost", hold, y, "the dispatcher may stop with messages in its queue")
        qs = {}
        for e in tops:
            for m, mu in e.extra.mu.items():
                try:
                    qs[m] = (mu, y.I.read(o.st, *m))
                except Exception:
                    pass
        W.frame(evs, y, {m: q for m, q in qs.items() if q[1] is not q[0]}, False, True, hold)
        gone = any(e.kind == "await" and is_recv(awaited(e)) and y.dec(isvar(e.ret, "Some")) is False for e in evs) or any(
            e.kind == "call" and e.ret is not None and is_try(e.ret) and y.dec(isvar(fld(e.ret, "Err", "0"), "Disconnected")) is True for e in evs)
        W.v("stops-when-all-gone", gone, y, "the dispatcher stops although there may be nodes left")
    for (rule, span), (ok, y, msg) in W.bad.items():
        S.ob(rule, "dispatcher", ok, span or y.where(), lambda: msg + "\n" + y.describe())
    S.need("delivers", "sends", W.sent, 1)
    S.need("delivers", "receives", W.got, 1)
    S.need("endings", "normal", n[0], 1)
    S.need("endings", "failed", n[1], 1)


def side(t):
    """(channel, side) of an end of a channel"""
    t = mval(t)
    for _ in range(5):
        if t.op in ("clone", "mref", "ref"):
            t = t.a[0]
    if t.op == "fld" and t.a[2] in ("0", "1") and t.a[0].op == "app" and t.a[0].a[0].endswith("::channel"):
        return t.a[0], t.a[2]
    return None, None


@check("C32")
def c32(S):
    A2, A3 = sym("arg2"), sym("arg3")
    xs = S.run(RUN_ASYNC, opaque32, key="async")
    done = {"ok": 0, "failed": 0, "nodes": 0}
    seen = False
    for x in xs:
        if x.kind == "panic":
            S.xob("no-panic", "run_async", False, x, "the runner panics")
            continue
        if x.ok() is None:
            done["failed"] += 1
            S.xob("error-has-a-cause", "run_async", x.err() is not None and any(True for _ in failure_reason(x, x.val)), x, "fails without anything having failed")
            continue
        done["ok"] += 1
        evs = x.st.events()
        disp = [e for e in evs if e.kind == "spawn"]
        S.xob("one-dispatcher", "", len(disp) == 1, x, "not exactly one dispatcher is started")
        if len(disp) != 1:
            continue
        disp = disp[0]
        if not seen:
            seen = True
            dispatcher(S, x, disp)
        nodes = [e for e in evs if e.kind == "loop" and any(c.name == SNEW for p in e.extra.parts for c in flat(p.events))]
        S.xob("node-loop", "", len(nodes) == 1 and nodes[0].done is not None and any(s is A2 for s in subterms(nodes[0].done)) and in_order(nodes[0].done), x,
              "the nodes are not all started")
        if len(nodes) != 1:
            continue
        for e in evs:
            if e.kind == "loop" and any(v.op == "ins" and side(v.a[2])[0] is not None for q in e.extra.parts for v in q.updates.values()):
                S.xob("node-channels", "order", e.done is not None and in_order(e.done), x, "the channels are not registered in the order of the nodes")
        sids = set()
        outch = None
        for p in nodes[0].extra.parts:
            y = X(x.I, interp.Out("part", p.st), x.root)
            news = [c for c in p.events if c.name == SNEW]
            sps = [c for c in p.events if c.kind == "spawn"]
            ok = len(news) == 1 and len(sps) == 1
            S.xob("one-session-per-node", "", ok, y, "not exactly one session is created and run per node")
            if not ok:
                continue
            done["nodes"] += 1
            nw, sp = news[0], sps[0]
            sids.add(nw.args[1])
            el = nw.args[2].a[0] if nw.args[2].op == "fld" else None
            ok = el is not None and el.op == "elem" and el.a[0] is A2 and nw.args[2] is fld(el, None, "0") and nw.args[3] is fld(el, None, "1")
            S.xob("own-signer-and-entry-point", "", ok, y, "the session is not created from the node's signer and entry point")
            for o in sp.extra[0]:
                z = X(x.I, o, x.root)
                rs = [c for c in z.st.events() if c.kind == "call" and c.name in (RUN, PAR)]
                if len(rs) != 1 or z.kind != "ret":
                    S.xob("node-runs", "", False, z, "the node's task does not run its session exactly once")
                    continue
                r = rs[0]
                S.xob("node-runs", "result", z.val.op == "app" and any(s is r.ret for s in subterms(z.val)) or isadt(z.val, "Result") and any(
                    s is r.ret for s in subterms(z.val)), z, "the node's task does not return the outcome of the session")
                S.xob("node-runs", "session", r.args[4] is okv(nw.ret) or r.args[4] is fld(nw.ret, "Ok", "0"), z, "the node's task runs another session")
                S.xob("chosen-runner", "", y.dec(A3) is (r.name == PAR) or z.dec(A3) is (r.name == PAR), z, "the processing mode asked for is not the one used")
                oc, os_ = side(r.args[1])
                ic, is_ = side(r.args[2])
                S.xob("node-channels", "outgoing", oc is not None and os_ == "0", z, "the node does not send to the dispatcher")
                outch = oc or outch
                # incoming: the receiver of the channel registered for the node's identity
                reg = [(k, c) for e in evs if e.kind == "loop" for q in e.extra.parts for v in q.updates.values() if v.op == "ins"
                       for k, c in [(v.a[1], side(v.a[2])[0])] if c is not None]
                ok = ic is not None and is_ == "1" and any(c is ic and k.op == "app" and k.a[0].endswith("verifying_key") and k.a[1][0] is fld(el, None, "0") for k, c in reg)
                S.xob("node-channels", "incoming", ok, z, "the node does not receive what is addressed to it")
        S.xob("common-session-id", "", len(sids) == 1 and not any(s.op in ("elem", "ekey", "mu") for s in subterms(next(iter(sids)))), x,
              "the nodes' sessions have different identifiers")
        # the dispatcher can end: no sender is left with the runner when it is waited for
        wait = [i for i, e in enumerate(evs) if e.kind == "await" and awaited(e) is not None and disp.ret is awaited(e)]
        S.xob("dispatcher-awaited", "", len(wait) == 1, x, "the dispatcher is not waited for")
        if wait and outch is not None:
            gone = any((e.kind == "drop" or e.kind == "call" and e.name.endswith("mem::drop")) and e.args and side(e.args[0])[0] is outch for e in evs[:wait[0]])
            S.xob("no-self-deadlock", "run_async", gone, x, "waits for the dispatcher while holding a sender it waits for")
            w = evs[wait[0]]
            S.xob("failure-reported", "dispatcher", x.dec(isvar(w.ret, "Ok")) is True and x.dec(isvar(okv(w.ret), "Ok")) is True, x,
                  "a failure of the dispatcher is ignored")
        reports(S, x, nodes[0])
    for k in ("ok", "failed", "nodes"):
        S.need("endings", "run_async:" + k, done[k], 1)
    S.ob("dispatcher-found", "", seen, "", "no dispatcher found")


def in_order(t):
    """the sequence goes through everything in the order in which it was put together"""
    if t.op == "zip":
        return all(in_order(a) for a in t.a if isinstance(a, T))
    if t.op == "it":
        return in_order(t.a[0]) and all(not isinstance(a, tuple) or in_order_ops(a) for a in t.a[1:])
    if t.op == "seq":
        b = t.a[0]
        return in_order(b.a[0]) if b.op == "fold" and isinstance(b.a[0], T) else True
    return t.op in ("sym", "opaque", "fld", "range")


def in_order_ops(a):
    return all(o[0] in ("map", "cloned", "copied", "enumerate", "inspect", "into") if isinstance(o, tuple) and o and isinstance(o[0], str) else True for o in a)


def reports(S, x, nodes):
    """every node's report under its identity"""
    r = x.ok()
    f = r.a[3][0] if r.op == "adt" and len(r.a[3]) == 1 else None
    ok = f is not None and f.op == "fold" and f.a[1].op == "empty" and len(f.a[2]) >= 1
    if ok:
        for c, v in f.a[2]:
            ok = ok and v.op == "ins" and v.a[0].op == "acc"
            if not ok:
                break
            k, rep = v.a[1], v.a[2]
            ok = ok and k.op in ("ekey", "elem", "fld")
            ok = ok and any(isapp(s, "await") for s in subterms(rep)) and any(s is k or s.op == "get" and s.a[1] is k for s in subterms(rep))
    S.xob("reports-of-all", "", ok, x, "the result does not consist of each node's report under its identity")
    hs = [v for p in nodes.extra.parts for v in p.updates.values() if v.op in ("ins", "push")]
    ok = bool(hs)
    for v in hs:
        if v.op == "ins":
            ok = ok and isapp(v.a[1], SESSION + "verifier") or v.a[1].op == "app" and v.a[1].a[0].endswith("verifying_key")
    S.xob("reports-of-all", "tasks", ok, x, "the tasks are not kept under their nodes' identities")


# ---------------------------------------------------------------------------------------------------- test helpers
EV = "session::evidence::Evidence::"


@check("C33")
def c33(S):
    A1, A2, A3, A4 = (sym("arg%d" % i) for i in range(1, 5))
    n = 0
    for x in S.run("dev::misbehave::check_evidence", lambda nm, f: nm.startswith(EV), key="api"):
        if x.kind == "panic":
            t = [k for k, b in x.facts.items() if isinstance(k, T) and k.op == "isempty" and b is False and "provable_errors" in pretty(k)]
            S.xob("no-panic", "check_evidence", bool(t), x, "panics although the misbehaving node reported nothing")
            continue
        if x.ok() is None:
            continue
        n += 1
        reps = F(A2, "reports")
        S.xob("target-known", "", x.yes(has(reps, A1)), x, "accepted although the misbehaving node is unknown")
        S.xob("target-clean", "", x.yes(T_("isempty", F(T_("get", reps, A1), "provable_errors"))), x, "accepted although the misbehaving node reported errors")
        ls = [e for e in x.st.events() if e.kind == "loop" and e.done is not None and bool(e.extra.its)]
        ls = [e for e in ls if any(s is reps for s in subterms(e.done))]
        S.xob("all-reports-examined", "", len(ls) >= 1, x, "accepted without examining the other nodes' reports")
        good = {"one": False, "evidence": False, "verified": False, "described": False}
        for e in ls:
            covers = covers_others(e.done, reps, A1)
            for what in good:
                def part_ok(p):
                    y = X(x.I, interp.Out("part", p.st), x.root)
                    key = [s for t in list(p.facts) if isinstance(t, T) for s in subterms(t) if s.op == "get" and s.a[1].op in ("ekey", "elem")]
                    for g in set(key):
                        if not any(s is reps for s in subterms(g.a[0])):
                            continue
                        pe = F(g, "provable_errors")
                        if g.a[1].op == "ekey" and covers == "all" and y.dec(eq(g.a[1], A1)) is True:
                            return True
                        one = T_("get", pe, A1)
                        if what == "one" and y.no(T_("isempty", pe)) and (y.no(T_("lt", INT(1), T_("len", pe))) or y.yes(eq(T_("len", pe), INT(1)))):
                            return True
                        if what == "one" and y.yes(eq(T_("len", pe), INT(1))):
                            return True
                        if what == "evidence" and y.yes(has(pe, A1)):
                            return True
                        if what == "verified" and any(isapp(t.a[0], EV + "verify") and t.a[0].a[1][0] is one and t.a[0].a[1][1] is A3 and (t.a[1], b) in (("Ok", True), ("Err", False))
                                                      for t, b in p.facts.items() if isinstance(t, T) and t.op == "isvar"):
                            return True
                        if what == "described" and any(b is True and t.op == "app" and t.a[0].endswith("::contains") and t.a[1][0].op in ("app",) and
                                                       any(isapp(s, EV + "description") and s.a[1][0] is one for s in subterms(t.a[1][0])) and t.a[1][1] is A4
                                                       for t, b in p.facts.items() if isinstance(t, T)):
                            return True
                    return False
                if covers and e.extra.parts and all(part_ok(p) for p in e.extra.parts):
                    good[what] = True
        for what, ok in good.items():
            S.xob("each-report-" + what, "", ok, x, {"one": "a report without or with several provable errors is accepted", "evidence": "a report without evidence about the misbehaving node is accepted",
                  "verified": "evidence that does not verify is accepted", "described": "evidence with another description is accepted"}[what])
    S.need("each-report-verified", "paths", n, 1)
    n = 0
    for x in S.run("dev::run_sync::ExecutionResult::results", lambda nm, f: nm.endswith("SessionReport::brief"), key="api"):
        v = x.ok()
        if x.kind == "panic":
            S.xob("no-panic", "results", False, x, "panics")
            continue
        reps = F(A1, "reports")
        if v is None:
            S.xob("results-refused", "", some_without(x, reps), x, "results are refused although every session has one")
            continue
        n += 1
        ok = v.op == "fold" and v.a[1].op == "empty" and plain_seq(v.a[0]) is reps
        if ok:
            for c, w in v.a[2]:
                k = [t for t, b in c if t.op == "isvar" and b is True]
                if w.op == "ins" and w.a[0].op == "acc":
                    g = T_("get", reps, w.a[1])
                    ok = ok and w.a[1].op == "ekey" and w.a[1].a[0] is reps and w.a[2] is fld(F(g, "outcome"), "Result", "0")
                elif w.op == "acc":
                    ok = ok and refuted(x, reps, c)
                else:
                    ok = False
        S.xob("results-complete", "", ok, x, "the results are not those of all the sessions")
    S.need("results-complete", "paths", n, 1)
    extend_one(S)


def covers_others(seq, reps, who):
    """'others': goes through all reports except that of `who`; 'all': goes through all"""
    b = plain_seq(seq)
    if b is None:
        return None
    if b is reps:
        return "all"
    if b.op == "rem" and b.a[0] is reps and b.a[1] is who:
        return "others"
    return None


def plain_seq(s):
    if s.op == "seq" and (len(s.a) < 2 or s.a[1] in ("map", "vec") or True):
        return s.a[0]
    return None


def refuted(x, reps, cond):
    """no report meets the condition, since a collection of those that do is known to be empty"""
    for t, b in x.facts.items():
        if isinstance(t, T) and t.op == "isempty" and b is True and t.a[0].op == "fold" and t.a[0].a[1].op == "empty" and plain_seq(t.a[0].a[0]) is reps:
            for c, w in t.a[0].a[2]:
                if set(c) <= set(cond) and w.op in ("push", "ins"):
                    return True
    return False


def some_without(x, reps):
    for t, b in x.facts.items():
        if isinstance(t, T) and t.op == "isempty" and b is False and t.a[0].op == "fold" and plain_seq(t.a[0].a[0]) is reps:
            return all(w.op == "acc" for c, w in t.a[0].a[2] if any(k.op == "isvar" and k.a[1] == "Result" and v is True for k, v in c))
        if isinstance(t, T) and t.op == "isvar" and t.a[0].op == "fld" and t.a[0].a[2] == "outcome":
            if (t.a[1] == "Result") is not b or (t.a[1] != "Result" and b is True):
                return True
    return False


def extend_one(S):
    A1, A2 = sym("arg1"), sym("arg2")
    NEW = "dev::extend::ExtendableEntryPoint::new"
    n = 0
    for x in S.run("dev::misbehave::extend_one", lambda nm, f: nm.startswith("dev::extend::"), key="api"):
        v = x.ok()
        if x.kind == "panic":
            S.xob("no-panic", "extend_one", False, x, "panics")
            continue
        if v is None:
            S.xob("extension-refused", "", x.yes(T_("isempty", A1)), x, "fails although there is an entry point to extend")
            continue
        n += 1
        ok = v.op == "tup" and len(v.a[0]) == 2
        who, lst = v.a[0] if ok else (None, None)
        pairs, rest = [], lst
        while ok and rest.op == "push":
            pairs.append(rest.a[1])
            rest = rest.a[0]
        ok = ok and len(pairs) == 1 and pairs[0].op == "tup" and len(pairs[0].a[0]) == 2
        if ok:
            sg, ep = pairs[0].a[0]
            ok = isapp(who, "signature::keypair::Keypair::verifying_key") and who.a[1][0] is sg
            S.xob("one-extended", "identity", ok, x, "the identity returned is not that of the extended node")
            el = sg.a[0] if sg.op == "fld" else None
            ok = el is not None and el.op == "last" and el.a[0] is A1 and ep.op == "app" and any(s is A2 for s in subterms(ep)) and any(
                isapp(s, NEW) and s.a[1][0] is fld(el, None, "1") for s in subterms(ep))
            S.xob("one-extended", "extended", ok, x, "the entry point extended is not the node's own")
            ok = rest.op == "fold" and rest.a[1].op == "empty" and plain_seq(rest.a[0]) is not None and plain_seq(rest.a[0]).op == "popped" and \
                plain_seq(rest.a[0]).a[0] is A1 and len(rest.a[2]) == 1
            if ok:
                w = rest.a[2][0][1]
                ok = w.op == "push" and w.a[0].op == "acc" and w.a[1].op == "tup" and len(w.a[1].a[0]) == 2
                if ok:
                    s2, e2 = w.a[1].a[0]
                    ok = s2.op == "fld" and s2.a[0].op == "elem" and s2.a[2] == "0" and isapp(e2, NEW) and e2.a[1][0] is fld(s2.a[0], None, "1")
            S.xob("one-extended", "others", ok, x, "the other entry points are not taken over without extensions")
        else:
            S.xob("one-extended", "shape", False, x, "not exactly one entry point is extended")
    S.need("one-extended", "paths", n, 1)
