"""C23, C24, C31: the runners (session/tokio.rs, dev/tokio.rs, dev/run_sync.rs).

A typestate analysis over the event structure of every path: each path of a runner is a sequence of
calls on the session, of channel operations and of spawned tasks, with loops kept as (alternatives of
one iteration)*.  The monitor follows the session, its accumulator, the buffered messages and every
value that still has to be delivered or recorded; at a loop it is run to a fixpoint over the
alternatives, with the loop-carried variables renamed on entry and at the back edge."""
import json
from collections import namedtuple
from lib import *

API = {SESSION + m for m in ("make_accumulator", "message_destinations", "make_message", "add_artifact", "process_message",
                             "preprocess_message", "add_processed_message", "can_finalize", "finalize_round", "terminate",
                             "terminate_due_to_errors", "session_id", "verifier", "round_id")}


def opaque_api(n, f):
    return n in API


OUTBOX = "dev::run_sync::Messages::"
QUEUE = [OUTBOX + m for m in ("new", "push", "extend", "pop", "is_empty", "len")]


MST = namedtuple("MST", "S A C O made gate cancel dead P D K fut handles")
# S session aliases, A accumulator aliases, C aliases of the buffered messages still to be processed (None: done),
# O aliases of the local outbox, made: messages for all destinations created, gate: last definite can_finalize answer,
# cancel: cancellation observed, dead: the incoming channel is closed, P: values still to be handled,
# D: drained channels, K: ((channel, roles)...) used by tasks, fut: futures created and not yet awaited, handles: tasks
EMPTY = frozenset()


def merge(sts):
    """states which differ only in what may have been started are joined"""
    g = {}
    for st in sts:
        key = st._replace(K=(), handles=frozenset(h for h in st.handles if h[0] == "sender"))
        o = g.get(key)
        if o is not None:
            K = dict(o.K)
            K.update(st.K)
            st = st._replace(K=tuple(sorted(K.items(), key=lambda kv: kv[0].n)), handles=o.handles | st.handles)
        g[key] = st
    return g.values()


def short(n):
    return n.split("::")[-1]


def mval(t):
    """the value behind a snapshot of a mutable reference"""
    return t.a[0] if t.op == "mref" else t


def disabled(e, isfut):
    """the futures of a select! whose precondition does not hold: they are not polled"""
    caps = [mval(c) for c in e.args]
    futs = [c.a[0] for c in caps if c.op == "tup" and any(isfut(y) for y in c.a[0])]
    if len(futs) != 1 or len(caps) != 2:
        return []
    masks = [c.a[0] for c in caps if c.op == "int"]
    return [y for i, y in enumerate(futs[0]) if not masks or masks[0] >> i & 1]


class Monitor:
    def __init__(self, S, xs, name, rx=None, tx=None, rng=None, cancel=None):
        self.S, self.name = S, name
        self.rx, self.tx, self.rng, self.cancelarg = rx, tx, rng, cancel
        self.bad = {}
        self.count = {}
        self.mu = {}
        self.memo, self.keep = {}, []
        self.upd = {}
        self.recs = []
        self.tasks = {}

    # ---- reporting
    def v(self, rule, ok, e, x, msg, inst=""):
        """one obligation; grouped by rule and place"""
        k = (rule, inst, (e.span if e is not None and e.span else x.where()))
        o = self.bad.get(k)
        if o is None or (o[0] and not ok):
            self.bad[k] = (bool(ok), x, msg)
        return ok

    def flush(self):
        for (rule, inst, span), (ok, x, msg) in self.bad.items():
            self.S.ob(rule, self.name + (":" + inst if inst else ""), ok, span, lambda: msg + "\n" + x.describe())

    # ---- aliases
    def is_(self, al, t):
        return al is not None and any(t is a or (t.op == "post" and t.a[0] is a) or (t.op in ("box", "some") and t.a[0] is a) for a in al)

    def origin(self, t):
        """initial value of a loop-carried or mutated place"""
        for _ in range(40):
            if t.op == "mref":
                t = t.a[0]
            elif t.op == "mu" and t in self.mu:
                t = self.mu[t]
            elif t.op == "post":
                args = t.a[0].a[1]
                ms = [a for a in args if a.op == "mref"]
                ix = t.a[1]
                c = [a for a in ms]
                if len(c) == 1:
                    t = c[0].a[0]
                elif isinstance(ix, tuple) and ix and isinstance(ix[0], int) and ix[0] < len(args) and args[ix[0]].op == "mref":
                    t = args[ix[0]].a[0]
                else:
                    return t
            elif t.op == "fold":
                t = t.a[1]
            else:
                return t
        return t

    # ---- renaming at loops
    def ren_in(self, rec, st):
        def f(al):
            if al is None:
                return None
            r = set(al)
            for m, mu in rec.mu.items():
                if self.is_(al, rec.inits[m]) or rec.inits[m] in al:
                    r.add(mu)
            return frozenset(r)
        names = {rec.inits[m]: mu for m, mu in rec.mu.items()}
        return st._replace(S=f(st.S), A=f(st.A), C=f(st.C), O=f(st.O), P=self.sides(st.P, names))

    def sides(self, P, names):
        """collections of messages still to be handed on, under their new names"""
        return frozenset(("side", names.get(o[1], o[1])) if o[0] == "side" else o for o in P)

    def ren_back(self, rec, part, st):
        def f(al):
            if al is None:
                return None
            r = set()
            for m, mu in rec.mu.items():
                now = part.updates.get(m, mu)
                if self.is_(al, now):
                    r.add(mu)
            # values not carried by the loop stay what they are
            r |= {a for a in al if not any(s in rec.mu.values() for s in subterms(a)) and not self.inner(rec, a, part)}
            return frozenset(r)
        names = {v: rec.mu[m] for m, v in part.updates.items() if m in rec.mu}
        return st._replace(S=f(st.S), A=f(st.A), C=f(st.C), O=f(st.O), P=self.sides(st.P, names))

    def inner(self, rec, a, part):
        """the value was produced inside this iteration"""
        rets = {e.ret for e in flat(part.events) if e.ret is not None}
        return any(s in rets for s in subterms(a))

    def ren_out(self, lev, st):
        if not lev.ren:
            return st

        def f(al):
            if al is None:
                return None
            return frozenset(al) | frozenset(subst(a, lev.ren) for a in al)
        return st._replace(S=f(st.S), A=f(st.A), C=f(st.C), O=f(st.O), P=self.sides(st.P, lev.ren))

    # ---- running
    def run(self, evs, sts, x, lvl=0):
        depth = len(self.recs)
        for e in evs:
            nxt = set()
            if e.kind == "loop":
                nxt = self.loop(e, sts, x, lvl)
                if e.done is None:
                    self.recs.append(e.extra)  # what follows is the last, unfinished iteration
            else:
                for st in sts:
                    nxt |= self.step(e, st, x)
            sts = set(merge(nxt)) if len(nxt) > 1 else nxt
            if len(sts) > 200:
                raise EngineError("monitor state explosion in %s" % self.name)
        del self.recs[depth:]
        return sts

    def loop(self, e, sts, x, lvl):
        rec = e.extra
        for m, mu in rec.mu.items():
            self.mu[mu] = rec.inits[m]
            self.upd[mu] = [rec.inits[m]] + [p.updates[m] for p in rec.parts if m in p.updates]
        for m, v0 in rec.its.items():
            pass
        seen = {self.ren_in(rec, st) for st in sts}
        seen = set(merge(seen))
        work = set(seen)
        seq = None
        for v0 in rec.its.values():
            seq = v0.a[0]
        while work:
            new = set()
            for st in work:
                for p in rec.parts:
                    px = X(x.I, interp.Out("part", p.st), x.root)
                    key = (id(p), st)
                    if key not in self.memo:
                        self.memo[key] = r = set()
                        self.keep.append(p)
                        st0 = self.begin(st, seq, rec)
                        self.recs.append(rec)
                        for s2 in self.run(p.events, {st0}, px, lvl + 1):
                            s2 = self.push_update(rec, p, s2, px)
                            left = {o for o in s2.P - st.P if o[0] != "side"}
                            self.v("handled-in-the-iteration", not left, e, px,
                                   "left undone at the end of an iteration: %s" % ", ".join(sorted(self.show(o) for o in left)))
                            s2 = s2._replace(P=frozenset(o for o in s2.P if o in st.P or o[0] == "side"), fut=s2.fut & st.fut)
                            r.add(self.ren_back(rec, p, s2))
                        self.recs.pop()
                    new |= self.memo[key]
            both = set(merge(seen | new))
            work = both - seen
            seen = both
            if len(seen) > 300:
                raise EngineError("monitor state explosion in a loop of %s" % self.name)
        r = set()
        side = frozenset(o for st in seen for o in st.P if o[0] == "side")
        for st in seen:
            st = self.ren_out(e, st._replace(P=st.P | side))
            if e.done is not None:
                st = self.finished(st, e, seq, x)
                st = self.all_disabled(st, e, seq, x)
            else:
                st = self.begin(st, seq, rec)
            r.add(st)
        return set(merge(r))

    def show(self, o):
        return {"dest": "no message is made for a destination", "cached": "a buffered message is not processed",
                "msg": "a created message is not sent", "art": "an artifact is not recorded", "vm": "an accepted message is not processed",
                "processed": "the result of a processed message is not recorded", "in": "a received message is not examined",
                "sent": "a failure to send is not checked", "side": "collected messages are not handed on",
                "fwd": "a collected message is not handed on", "joined": "the result of a task is not checked"}.get(o[0], o[0])

    def joined(self, e, seq):
        """spawn sites whose handles are all awaited by this loop"""
        if seq is None or not e.extra.parts or not all(any(c.kind == "await" and self.handle(c.args[0]) for c in p.events) for p in e.extra.parts):
            return EMPTY
        seen, todo, r = set(), [seq], set()
        while todo:
            t = todo.pop()
            for s in subterms(t):
                if s in seen:
                    continue
                seen.add(s)
                if s in self.tasks:
                    r.add(self.tasks[s])
                elif s.op == "app" and "::spawn" in s.a[0] and s.a[1] and s.a[1][0].op in ("clo", "cor"):
                    r |= {sp for t2, sp in self.tasks.items() if t2.a[1][0].a[0] == s.a[1][0].a[0]}
                if s in self.upd:
                    todo += self.upd[s]
        return r

    def begin(self, st, seq, rec):
        """obligations of one iteration over a sequence"""
        P = set(st.P)
        if seq is not None:
            b = plain(seq)
            if b is not None:
                if isapp(b, SESSION + "message_destinations") and self.is_(st.S, b.a[1][0]) and uses(rec, "make_message"):
                    P.add(("dest", b))
                elif st.C is not None and self.is_(st.C, b) and uses(rec, "process_message"):
                    P.add(("cached", b))
                elif ("side", b) in P and self.forwards(rec, b):
                    P.add(("fwd", b))
        return st._replace(P=frozenset(P))

    def finished(self, st, e, seq, x):
        b = plain(seq) if seq is not None else None
        done = self.joined(e, seq)
        if done:
            st = st._replace(handles=frozenset(h for h in st.handles if h[0] != "task" or h[1] not in done))
        if b is None:
            return st
        if ("side", b) in st.P and self.forwards(e.extra, b):
            st = st._replace(P=st.P - {("side", b)})
        if isapp(b, SESSION + "message_destinations") and self.is_(st.S, b.a[1][0]) and uses(e.extra, "make_message"):
            return st._replace(made=True)
        if st.C is not None and self.is_(st.C, b) and uses(e.extra, "process_message"):
            return st._replace(C=None)
        return st

    def forwards(self, rec, X):
        """the loop hands on elements of the collection"""
        return any(c.kind == "call" and short(c.name) in ("send", "push") and self.element(c.args[1], X) for p in rec.parts for c in flat(p.events)) or \
            any(v.op == "push" and v.a[0] is rec.mu.get(m) and self.element(v.a[1], X) for p in rec.parts for m, v in p.updates.items())

    def all_disabled(self, st, e, seq, x):
        """the else branch of a select: every one of its futures was polled and gave None"""
        if seq.op != "range" or not st.fut:
            return st
        rec = e.extra
        for m, v in rec.inits.items():
            if m in rec.its or v.op == "bool" or v is INT(0):
                continue
            return st
        gone = set()
        for p in rec.parts:
            px = X(x.I, interp.Out("part", p.st), x.root)
            for c in p.events:
                if c.kind == "await" and c.args[0] in st.fut and px.dec(isvar(c.ret, "Some")) is False:
                    gone.add(c.args[0])
        if gone >= st.fut:
            for f in gone:
                k, side = self.chan(f.a[1][0])
                if k is not None:
                    st = self.drained(k, e, st, x)
                elif self.rx is not None and self.origin(f.a[1][0]) is self.rx:
                    st = st._replace(dead=True)
            st = st._replace(fut=EMPTY)
        return st

    def push_update(self, rec, p, st, x):
        """messages put into a local collection: the outbox itself, or one whose content has to be handed on"""
        P = set(st.P)
        O = st.O
        for m, v in p.updates.items():
            mu = rec.mu.get(m)
            if mu is None:
                continue
            if v.op == "push" and v.a[0] is mu:
                it = v.a[1]
                for o in list(P):
                    if (o[0] == "msg" and it.op == "adt" and any(f is o[1] for f in it.a[3])) or (o[0] == "fwd" and self.element(it, o[1])):
                        if o[0] == "msg":
                            self.addressed(it, o, st, x, None)
                        P.discard(o)
                        if O is not None and mu in O:
                            O = frozenset([v])
                        else:
                            P.add(("side", v))
            else:
                # another collection appended as a whole
                X = v
                while X.op == "fold" and X.a[1] is not mu and X.a[1].op == "fold":
                    X = X.a[1]
                if X.op == "fold" and X.a[1] is mu and X.a[0].op == "seq" and ("side", X.a[0].a[0]) in P and len(X.a[2]) == 1 \
                        and X.a[2][0][1].op == "push" and self.element(X.a[2][0][1].a[1], X.a[0].a[0]):
                    P.discard(("side", X.a[0].a[0]))
                    if O is not None and mu in O:
                        O = frozenset([v])
                    else:
                        P.add(("side", v))
        return st._replace(P=frozenset(P), O=O)

    def element(self, it, X):
        """an element of the collected messages"""
        if it.op == "elem" and it.a[0] is X:
            return True
        if it.op == "adt" and X.op == "fold":
            for c, v in X.a[2]:
                if v.op == "push" and v.a[1].op == "adt" and v.a[1].a[0] == it.a[0]:
                    same = [f is g or n == "message" for n, f, g in zip(it.a[2], it.a[3], v.a[1].a[3])]
                    if all(same):
                        return True
        return False

    def addressed(self, it, o, st, x, e):
        """an outgoing message carries the right addressing"""
        names = dict(zip(it.a[2], it.a[3]))
        self.v("message-addressed", names.get("message") is o[1], e, x, "not the created message")
        self.v("message-addressed", names.get("to") is o[2], e, x, "the message is addressed to another party than the one it was created for", "to")
        fr = names.get("from")
        self.v("message-addressed", fr is not None and isapp(fr, SESSION + "verifier") and self.is_(st.S, fr.a[1][0]), e, x,
               "the message does not carry this party as the sender", "from")
        if "session_id" in names:
            sid = names["session_id"]
            self.v("message-addressed", isapp(sid, SESSION + "session_id") and self.is_(st.S, sid.a[1][0]), e, x,
                   "the message is not sent under this session's identifier", "session")
        self.count["sent"] = self.count.get("sent", 0) + 1

    def step(self, e, st, x):
        n = e.name
        s = short(n)
        self.count[s] = self.count.get(s, 0) + 1
        h = getattr(self, "on_" + s, None)
        if e.kind in ("call", "await", "spawn", "drop", "poll") and (h is not None) and (n in API or e.kind != "call" or "sync::mpsc" in n or "tokio" in n or "Arc" in n or n.startswith(OUTBOX)):
            r = h(e, st, x)
            return r if isinstance(r, set) else {r}
        if e.kind == "drop":
            r = self.on_drop(e, st, x)
            return {r}
        return {st}

    def own(self, e, st, x):
        self.v("right-session", self.is_(st.S, mval(e.args[0])), e, x, "called on something else than the current session")

    def acc(self, e, st, x, t):
        self.v("right-accumulator", self.is_(st.A, mval(t)), e, x, "not the accumulator of this round with everything recorded so far")

    def good(self, x, t, variant="Ok"):
        return x.dec(isvar(t, variant))

    # -- session calls
    def on_make_accumulator(self, e, st, x):
        self.own(e, st, x)
        return st._replace(A=frozenset([e.ret]), made=False, gate=None, D=EMPTY, K=(), handles=EMPTY)

    def on_make_message(self, e, st, x):
        self.own(e, st, x)
        d = e.args[2]
        P = set(st.P)
        hit = [o for o in P if o[0] == "dest" and d.op in ("ekey", "elem") and d.a[0] is o[1]]
        self.v("one-message-per-destination", len(hit) == 1, e, x, "a message is created for something else than the next destination")
        for o in hit:
            P.discard(o)
        self.rng_ok(e, st, x)
        P.add(("msg", F(okv(e.ret), "0"), d))
        P.add(("art", F(okv(e.ret), "1")))
        return self.fallible(e, st._replace(P=frozenset(P)), x)

    def rng_ok(self, e, st, x):
        if self.rng is None:
            return
        r = e.args[1]
        self.v("caller-randomness", r.op == "mref" and self.origin(r) is self.rng, e, x, "the randomness does not come from the caller's generator")

    def fallible(self, e, st, x):
        """a failed call leaves nothing to do but to report it"""
        if self.good(x, e.ret) is False:
            return st._replace(P=frozenset([("failed", e.ret)]))
        return st

    def on_add_artifact(self, e, st, x):
        self.own(e, st, x)
        self.acc(e, st, x, e.args[1])
        hit = [o for o in st.P if o[0] == "art" and o[1] is e.args[2]]
        self.v("artifact-recorded-once", len(hit) == 1, e, x, "records something else than the artifact of a message just created or received from a task")
        return self.fallible(e, st._replace(A=st.A and frozenset([e.ret]), P=st.P - frozenset(hit)), x)

    def on_preprocess_message(self, e, st, x):
        self.own(e, st, x)
        self.acc(e, st, x, e.args[1])
        hit = [o for o in st.P if o[0] == "in" and e.args[2] is F(o[1], "from") and e.args[3] is F(o[1], "message")]
        self.v("incoming-examined-once", len(hit) == 1, e, x, "examines something else than the received message with its sender")
        P = set(st.P) - set(hit)
        v = okv(e.ret)
        if self.good(x, e.ret) is not False and x.dec(isvar(v, "ToProcess")) is not False:
            P.add(("vm", fld(v, "ToProcess", "0")))
        return self.fallible(e, st._replace(A=st.A and frozenset([e.ret]), P=frozenset(P)), x)

    def on_process_message(self, e, st, x):
        self.own(e, st, x)
        m = e.args[1]
        hit = [o for o in st.P if (o[0] == "vm" and o[1] is m) or (o[0] == "cached" and m.op in ("elem", "ekey") and m.a[0] is o[1])]
        self.v("accepted-processed-once", len(hit) == 1, e, x, "processes something else than an accepted or buffered message not processed yet")
        return st._replace(P=(st.P - frozenset(hit)) | {("processed", e.ret)})

    def on_add_processed_message(self, e, st, x):
        self.own(e, st, x)
        self.acc(e, st, x, e.args[1])
        hit = [o for o in st.P if o[0] == "processed" and o[1] is e.args[2]]
        self.v("result-recorded-once", len(hit) == 1, e, x, "records something else than the result of a processed message, or records it again")
        return self.fallible(e, st._replace(A=st.A and frozenset([e.ret]), P=st.P - frozenset(hit)), x)

    def on_can_finalize(self, e, st, x):
        self.own(e, st, x)
        self.acc(e, st, x, e.args[1])
        if x.yes(isvar(e.ret, "Yes")):
            return st._replace(gate="Yes")
        if x.yes(isvar(e.ret, "Never")):
            return st._replace(gate="Never")
        return st

    def leaving(self, e, st, x, what):
        left = [o for o in st.P]
        self.v("nothing-left-behind", not left, e, x, "%s with: %s" % (what, ", ".join(sorted(self.show(o) for o in left))))
        self.undrained(e, st, x, "nothing-left-behind", what + " although tasks may still have something to deliver")

    def undrained(self, e, st, x, rule, msg):
        for k, r in st.K:
            self.v(rule, k in st.D, e, x, msg, "channel")

    def on_finalize_round(self, e, st, x):
        self.own(e, st, x)
        self.rng_ok(e, st, x)
        self.acc(e, st, x, e.args[2])
        self.v("finalized-when-ready", st.gate == "Yes", e, x, "the round is finalized without having been reported ready")
        self.v("finalized-when-ready", not st.cancel, e, x, "the round is finalized after the cancellation", "cancelled")
        self.v("round-worked-off", st.made, e, x, "the round is finalized before a message was created for every destination", "messages")
        self.v("round-worked-off", st.C is None, e, x, "the round is finalized before the buffered messages were processed", "buffered")
        self.leaving(e, st, x, "the round is finalized")
        o = okv(e.ret)
        if x.yes(isvar(o, "AnotherRound")):
            st = st._replace(S=frozenset([fld(o, "AnotherRound", "session")]), C=frozenset([fld(o, "AnotherRound", "cached_messages")]))
        else:
            st = st._replace(S=EMPTY, C=None)
        return self.fallible(e, st._replace(A=None, made=False, gate=None), x)

    def on_terminate(self, e, st, x):
        self.own(e, st, x)
        self.acc(e, st, x, e.args[1])
        self.v("terminated-when-cancelled", st.cancel, e, x, "ends as terminated by the user without a cancellation")
        self.leaving(e, st, x, "the session is terminated")
        return st._replace(S=EMPTY, A=None, cancel=None)

    def on_terminate_due_to_errors(self, e, st, x):
        self.own(e, st, x)
        self.acc(e, st, x, e.args[1])
        self.v("gives-up-when-hopeless", st.gate == "Never", e, x, "ends for lack of messages although that was not reported")
        self.v("gives-up-when-hopeless", not st.cancel, e, x, "a cancelled session ends for lack of messages", "cancelled")
        self.leaving(e, st, x, "the session is terminated")
        return st._replace(S=EMPTY, A=None, gate=None)

    # -- channels and tasks
    def chan(self, t):
        """(channel, side) of a sender or receiver"""
        t = self.origin(t)
        if t.op == "fld" and t.a[2] in ("0", "1") and t.a[0].op == "app" and t.a[0].a[0].endswith("::channel"):
            return t.a[0], t.a[2]
        return None, None

    def on_recv(self, e, st, x):
        return st._replace(fut=st.fut | {e.ret})

    def on_poll_fn(self, e, st, x):
        off = disabled(e, lambda y: y in st.fut) if e.kind == "poll" else []
        return st._replace(fut=st.fut - frozenset(off)) if off else st

    def on_cancelled(self, e, st, x):
        return st._replace(fut=st.fut | {e.ret})

    def on_thread_rng_n(self, e, st, x):
        return st

    def on_send(self, e, st, x):
        c, _ = self.chan(e.args[0])
        self.v("sent-to-the-caller", self.tx is not None and self.origin(e.args[0]) is self.tx, e, x, "the message is sent into another channel than the caller's")
        hit = [o for o in st.P if o[0] == "msg" and e.args[1].op == "adt" and any(f is o[1] for f in e.args[1].a[3])]
        ready = [o for o in st.P if (o[0] == "out" and o[1] is e.args[1]) or (o[0] == "fwd" and self.element(e.args[1], o[1]))]
        self.v("message-sent-once", len(hit) + len(ready) == 1, e, x, "sends something else than a message just created, or sends it again")
        for o in hit:
            self.addressed(e.args[1], o, st, x, e)
        return st._replace(P=(st.P - frozenset(hit) - frozenset(ready)) | {("sent", e.ret)})

    def on_await(self, e, st, x):
        f = e.args[0]
        P = set(st.P)
        if f.op == "app" and f.a[0].endswith("::recv"):
            t = f.a[1][0]
            if self.rx is not None and self.origin(t) is self.rx:
                self.waiting(e, st, x)
                d = x.dec(isvar(e.ret, "Some"))
                if d is False:
                    return st._replace(dead=True, fut=st.fut - {f}, P=frozenset(P | {("closed", e.ret)}))
                P.add(("in", somev(e.ret)))
                return st._replace(P=frozenset(P), fut=EMPTY)
            k, side = self.chan(t)
            if k is not None:
                if st.gate == "NotYet" and not st.cancel:
                    self.waiting(e, st, x)
                    self.v("wait-interruptible", any(t.op == "app" and t.a[0].endswith("::recv") and self.rx is not None and self.origin(t.a[1][0]) is self.rx
                                                     for t in st.fut), e, x, "waits for the results of the tasks without watching for messages", "messages")
                roles = dict(st.K).get(k)
                d = x.dec(isvar(e.ret, "Some"))
                if d is False:
                    return self.drained(k, e, st._replace(fut=st.fut - {f}), x)
                if roles is None:
                    return set()  # no task of this state writes into it
                for path, role in roles:
                    P.add((role, F(somev(e.ret), path) if path else somev(e.ret)))
                return st._replace(P=frozenset(P), fut=EMPTY)
        if f.op == "app" and f.a[0].endswith("::cancelled"):
            return st._replace(cancel=True, fut=EMPTY)
        if f.op == "app" and f.a[0].endswith("::send"):
            hit = [o for o in P if o[0] == "sent" and o[1] is f]
            d = x.dec(isvar(e.ret, "Ok"))
            if hit and d is True:
                P -= set(hit)
            elif hit and d is False:
                P = {("failed", e.ret)}
            return st._replace(P=frozenset(P))
        if self.handle(f):
            self.undrained(e, st, x, "no-self-deadlock", "waits for a task while it can be blocked on a full channel")
            d = x.dec(isvar(e.ret, "Ok"))
            if d is True and x.dec(isvar(okv(e.ret), "Ok")) is True:
                pass
            elif d is False or x.dec(isvar(okv(e.ret), "Ok")) is False:
                P = {("failed", e.ret)}
            else:
                P.add(("joined", e.ret))
            return st._replace(P=frozenset(P))
        return st

    def handle(self, f):
        if f.op == "app" and "spawn" in f.a[0]:
            return True
        return f.op in ("elem", "mu") and any("JoinHandle" in str(t) for t in ()) or f.op == "elem"

    def drained(self, k, e, st, x):
        if ("sender", k) not in st.handles:
            return st  # its end cannot be reached while a sender is held
        return st._replace(D=st.D | {k})

    def waiting(self, e, st, x):
        """what a wait for an incoming message is combined with"""
        f = e.args[0]
        self.v("wait-interruptible", any(t.op == "app" and t.a[0].endswith("::cancelled") and self.origin(t.a[1][0]) is self.cancelarg for t in st.fut),
               e, x, "waits for a message without watching the cancellation")
        for k, r in st.K:
            ok = any(t.op == "app" and t.a[0].endswith("::recv") and self.chan(t.a[1][0])[0] is k for t in st.fut)
            self.v("wait-interruptible", ok, e, x, "waits for a message without watching the results of the tasks", "tasks")

    def on_drop(self, e, st, x):
        for a in e.args:
            k, side = self.chan(a)
            if k is not None and side == "0":
                return st._replace(handles=st.handles | {("sender", k)})
        return st

    def on_spawn_blocking(self, e, st, x):
        outs, facts, ctx = e.extra
        K = dict(st.K)
        P0 = frozenset(o for o in st.P if o[0] in ("dest", "cached", "vm"))
        after = None
        for o in outs:
            tx = X(x.I, o, x.root)
            if o.kind != "ret":
                self.v("task-does-not-panic", False, e, tx, "a spawned task panics")
                continue
            T0 = Task(self, P0, st)
            left, roles, ok = T0.run(o, tx)
            if ok:
                for k, r in roles.items():
                    if K.get(k, r) != r:
                        self.v("task-results-uniform", False, e, tx, "tasks send different things into one channel")
                    K[k] = r
                self.v("task-delivers", not left, e, tx, "a task ends with: %s" % ", ".join(sorted(self.show(q) for q in left)))
                after = P0
        self.tasks[e.ret] = e.span
        return st._replace(P=st.P - P0, handles=st.handles | {("task", e.span)}, K=tuple(sorted(K.items(), key=lambda kv: kv[0].n)))

    on_spawn = on_spawn_blocking

    def on_abort(self, e, st, x):
        self.v("tasks-not-aborted", False, e, x, "a task is aborted: what it was doing is lost, and waiting for it fails")
        return st

    on_abort_all = on_shutdown = on_abort

    def on_into_inner(self, e, st, x):
        self.v("tasks-finished", not any(h[0] == "task" for h in st.handles), e, x,
               "the session is taken back although a task may still be using it")
        return st


def uses(rec, m):
    return any(c.name == SESSION + m for p in rec.parts for c in flat(p.events))


def plain(seq):
    """the collection a sequence goes through completely, itself or through a copy"""
    if seq.op != "seq":
        return None
    b = seq.a[0]
    for _ in range(4):
        if b.op == "fold" and b.a[1].op == "empty" and len(b.a[2]) == 1:
            c, v = b.a[2][0]
            if v.op in ("push", "ins") and v.a[0].op == "acc" and b.a[0].op == "seq" and v.a[1].op in ("elem", "ekey") and v.a[1].a[0] is b.a[0].a[0]:
                b = b.a[0].a[0]
                continue
        break
    return b


class Task:
    """the inside of a spawned task"""

    def __init__(self, mon, P, st):
        self.m, self.P, self.st = mon, set(P), st

    def run(self, o, x):
        m = self.m
        roles = {}
        pend = {}
        ok = True
        for e in o.st.events():
            if e.kind == "loop":
                m.v("task-straight", not any(c.name in API for p in e.extra.parts for c in flat(p.events)), e, x, "session calls in a loop of a task")
                continue
            n = short(e.name)
            m.count[n] = m.count.get(n, 0) + 1
            if e.name == SESSION + "make_message":
                m.own(e, self.st, x)
                d = e.args[2]
                hit = [q for q in self.P if q[0] == "dest" and d.op in ("ekey", "elem") and d.a[0] is q[1]]
                m.v("one-message-per-destination", len(hit) == 1, e, x, "a message is created for something else than the next destination")
                self.P -= set(hit)
                self.rng(e, x)
                self.P |= {("msg", F(okv(e.ret), "0"), d), ("art", F(okv(e.ret), "1"))}
                if m.good(x, e.ret) is False:
                    ok = False
            elif e.name == SESSION + "process_message":
                m.own(e, self.st, x)
                v = e.args[1]
                hit = [q for q in self.P if (q[0] == "vm" and q[1] is v) or (q[0] == "cached" and v.op in ("elem", "ekey") and v.a[0] is q[1])]
                m.v("accepted-processed-once", len(hit) == 1, e, x, "processes something else than an accepted or buffered message not processed yet")
                self.P -= set(hit)
                self.P.add(("processed", e.ret))
            elif e.kind == "call" and n in ("blocking_send", "send"):
                k, side = m.chan(e.args[0])
                m.v("task-reports-to-runner", k is not None and side == "0", e, x, "a task sends into another channel than one of the runner's")
                r = []
                for path, v in parts_of(e.args[1]):
                    for q in list(self.P):
                        if q[0] == "msg" and v.op == "adt" and any(f is q[1] for f in v.a[3]):
                            m.addressed(v, q, self.st, x, e)
                            self.P.discard(q)
                            r.append((path, "out"))
                        elif q[0] in ("art", "processed") and v is q[1]:
                            self.P.discard(q)
                            r.append((path, q[0]))
                m.v("task-delivers", bool(r), e, x, "a task sends something that is not a result")
                if k is not None:
                    roles[k] = tuple(sorted(r))
                d = m.good(x, e.ret)
                m.v("task-failure-reported", d is not None, e, x, "a task does not check whether its result could be sent")
                if d is False:
                    ok = False
            elif e.name in API and n not in ("verifier", "session_id", "round_id", "message_destinations"):
                m.v("task-straight", False, e, x, "unexpected session call in a task")
        if not ok:
            m.v("task-failure-reported", x.err() is not None, None, x, "the failure of a task is not returned")
        else:
            m.v("task-failure-reported", x.ok() is not None or x.err() is not None, None, x, "a task does not return a result")
        return frozenset(self.P), roles, ok

    def rng(self, e, x):
        m = self.m
        r = mval(e.args[1])
        # the task's generator is made by a call which draws from the caller's generator
        ok = False
        mus = set(m.recs[-1].mu.values()) if m.recs else set()
        for s in subterms(r):
            if s.op == "app" and any(a.op == "mref" and m.origin(a) is m.rng and any(q in mus for q in subterms(a)) for a in s.a[1]):
                ok = True
        m.v("own-randomness", ok, e, x, "the task's randomness is not drawn from the caller's generator for this message alone")
        m.rngs = getattr(m, "rngs", [])
        m.rngs.append(r)


def parts_of(v, path=""):
    yield path, v
    if v.op == "tup":
        for i, a in enumerate(v.a[0]):
            yield from parts_of(a, (path + "." if path else "") + str(i))


def flat(evs):
    for e in evs:
        if e.kind == "loop":
            for p in e.extra.parts:
                yield from flat(p.events)
        elif e.kind == "spawn":
            yield e
            for o in e.extra[0]:
                yield from flat(o.st.events())
        else:
            yield e


RUN, PAR = "session::tokio::run_session", "session::tokio::par_run_session"
FAILING = ("finalize_round", "make_message", "add_artifact", "add_processed_message", "preprocess_message", "terminate", "terminate_due_to_errors")


def empty_vec():
    return T_("empty", "vec")


def select_panic(x):
    """panics inside tokio::select!'s expansion: its counter arithmetic and its unreachable arm"""
    return x.kind == "panic" and x.info and (x.info[0] == "assert" and x.info[1].startswith("Overflow(") or x.info[1] == "core::panicking::panic_fmt") \
        and any(e.name.endswith("thread_rng_n") for e in x.st.events()) and True


def failure_reason(x, v):
    """the failed operation an error exit reports"""
    for t, b in x.facts.items():
        if isinstance(t, T) and t.op == "isvar" and t.a[0].op in ("app", "fld", "post"):
            if (t.a[1] == "Ok" and b is False) or (t.a[1] == "Some" and b is False) or (t.a[1] == "Err" and b is True):
                yield t.a[0]
        if isinstance(t, T) and isapp(t, "arc_unique") and b is False:
            yield t  # excluded by the rule tasks-finished


def session_runner(S, root, par):
    xs = S.run(root, opaque_api)
    M = Monitor(S, xs, short(root), rx=sym("arg3"), tx=sym("arg2"), rng=sym("arg1"), cancel=sym("arg4"))
    init = MST(frozenset([sym("arg5")]), None, frozenset([empty_vec()]), None, False, None, False, False, EMPTY, EMPTY, (), EMPTY, EMPTY)
    n = {"report": 0, "cancelled": 0, "hopeless": 0, "failed": 0}
    for x in xs:
        sts = M.run(x.st.events(), {init}, x)
        if x.kind == "panic":
            if not select_panic(x):
                S.xob("no-panic", M.name, False, x, "the runner panics")
            continue
        for st in sts:
            ending(S, M, x, st, n)
    return M, n


def ending(S, M, x, st, n):
    v = x.val
    e = x.err()
    last = [c for c in x.st.events() if c.kind == "call" and c.name in API and short(c.name) in ("finalize_round", "terminate", "terminate_due_to_errors")]
    t = last[-1] if last else None
    if x.ok() is None and e is not None:
        why = list(failure_reason(x, v))
        n["failed"] += 1
        M.v("error-has-a-cause", bool(why), None, x, "a local error without anything having failed")
        return
    if v.op == "app" and v.a[0] in (SESSION + "terminate", SESSION + "terminate_due_to_errors"):
        n["cancelled" if short(v.a[0]) == "terminate" else "hopeless"] += 1
        M.v("report-returned", t is not None and t.ret is v, None, x, "returns something else than the report of the termination")
    elif t is not None and isapp(t.ret, SESSION + "finalize_round"):
        n["report"] += 1
        M.v("report-returned", x.ok() is fld(okv(t.ret), "Finished", "0"), None, x, "does not return the report of the finished session")
    elif t is not None and x.ok() is okv(t.ret):
        n["cancelled" if short(t.name) == "terminate" else "hopeless"] += 1
    else:
        M.v("report-returned", False, None, x, "ends without a report")
    left = {o for o in st.P}
    M.v("no-failure-ignored", not left and not st.dead, None, x, "ends normally although something failed or was left over: %s" % ", ".join(sorted(o[0] for o in left)))


# which rules decide which property
BOTH = {"right-session", "right-accumulator", "nothing-left-behind", "handled-in-the-iteration", "task-delivers", "task-straight",
        "task-results-uniform", "task-reports-to-runner"}
ENDS = BOTH | {"wait-interruptible", "terminated-when-cancelled", "gives-up-when-hopeless", "no-self-deadlock", "tasks-finished", "no-panic",
               "error-has-a-cause", "report-returned", "no-failure-ignored", "task-failure-reported", "task-does-not-panic",
               "finalized-when-ready"}
DELIVERS = BOTH | {"message-addressed", "one-message-per-destination", "caller-randomness", "artifact-recorded-once", "incoming-examined-once",
                   "accepted-processed-once", "result-recorded-once", "finalized-when-ready", "round-worked-off", "sent-to-the-caller",
                   "message-sent-once", "own-randomness"}


def both_runners(S, rules):
    for root, par in ((RUN, False), (PAR, True)):
        M, n = session_runner(S, root, par)
        known = ENDS | DELIVERS
        for (rule, inst, span), (ok, x, msg) in M.bad.items():
            if rule in rules or rule not in known:
                S.ob(rule, M.name + (":" + inst if inst else ""), ok, span, lambda: msg + "\n" + x.describe())
        yield M, n


@check("C23")
def c23(S):
    for M, n in both_runners(S, DELIVERS):
        for what, floor in (("sent", 1), ("make_message", 1), ("add_artifact", 1), ("process_message", 2), ("add_processed_message", 1),
                            ("preprocess_message", 1), ("finalize_round", 1), ("make_accumulator", 1)):
            S.need("exercised", M.name + ":" + what, M.count.get(what, 0), floor)
    S.need("own-randomness", "task generators", len(getattr(M, "rngs", ())), 1)


@check("C24")
def c24(S):
    for M, n in both_runners(S, ENDS):
        for what in ("report", "cancelled", "hopeless", "failed"):
            S.need("endings", M.name + ":" + what, n[what], 1)
        S.need("exercised", M.name + ":waits", M.count.get("cancelled", 0), 1)
    S.need("exercised", M.name + ":tasks", len(set(M.tasks.values())), 1)


# ---------------------------------------------------------------------------------------------------- the synchronous runner
SYNC = "dev::run_sync::"


def in_state(t):
    """(states, party, field) for a part of the state stored for a party"""
    t = mval(t)
    if t.op == "fld" and t.a[1] == "InProgress" and t.a[0].op == "get":
        return t.a[0].a[0], t.a[0].a[1], t.a[2]
    return None, None, None


class SyncMonitor(Monitor):
    """run_sync and the function which continues a session: one session after the other, messages kept in a queue"""

    def __init__(self, S, xs, name, entries=None, propagate=None, **kw):
        Monitor.__init__(self, S, xs, name, **kw)
        self.entries, self.propagate = entries, propagate
        self.sids = set()
        self.states = set()

    def show(self, o):
        return {"entry": "no session is created for an entry point", "popped": "nothing is stored for the addressee of a message",
                "outbox": "messages are not put into the queue", "state": "the new state of a session is not stored",
                "owner": "the state of a new session is not stored"}.get(o[0]) or Monitor.show(self, o)

    def step(self, e, st, x):
        if e.kind == "call" and e.name in (SESSION + "new", self.propagate):
            n = "session" if e.name == SESSION + "new" else "continued"
            self.count[n] = self.count.get(n, 0) + 1
            return {self.new_session(e, st, x) if n == "session" else self.continued(e, st, x)}
        return Monitor.step(self, e, st, x)

    def ren_in(self, rec, st):
        r = Monitor.ren_in(self, rec, st)
        # an outbox which the loop changes is known under its new name only
        O = r.O
        for m, mu in rec.mu.items():
            if O and rec.inits[m] in O and mu in O and any(p.updates.get(m, mu) is not mu for p in rec.parts):
                O = O - {rec.inits[m]}
        return r._replace(O=O)

    def begin(self, st, seq, rec):
        st = Monitor.begin(self, st, seq, rec)
        b = plain(seq) if seq is not None else None
        if b is not None and b is self.entries:
            st = st._replace(S=EMPTY, A=None, P=st.P | {("entry", b)})
        return st

    def finished(self, st, e, seq, x):
        st = Monitor.finished(self, st, e, seq, x)
        b = plain(seq) if seq is not None else None
        # a loop which puts every message of an outbox into the queue
        hit = [o for o in st.P if o[0] == "outbox" and o[1] is b]
        if hit and all([c for c in p.events if c.name == OUTBOX + "push" and c.args[1].op == "elem" and c.args[1].a[0] is b] for p in e.extra.parts):
            st = st._replace(P=st.P - frozenset(hit))
        return st

    def new_session(self, e, st, x):
        el = e.args[2].a[0] if e.args[2].op == "fld" else None
        hit = [o for o in st.P if o[0] == "entry" and el is not None and el.op == "elem" and el.a[0] is o[1]
               and e.args[2] is F(el, "0") and e.args[3] is F(el, "1")]
        self.v("one-session-per-entry-point", len(hit) == 1, e, x, "a session is created from something else than the next signer with its entry point")
        inner = {mu for r in self.recs for mu in r.mu.values()}
        self.v("same-session-identifier", not any(s in inner or s.op == "elem" for s in subterms(e.args[1])), e, x,
               "the sessions do not share one identifier")
        self.sids.add(e.args[1])
        self.rng_is(e.args[0], e, x)
        st = st._replace(P=st.P - frozenset(hit))
        if self.good(x, e.ret) is False:
            return self.fallible(e, st, x)
        return st._replace(S=frozenset([okv(e.ret)]), A=None, made=False, gate=None, C=None, P=st.P | {("owner", e.args[2], okv(e.ret))})

    def queue(self, e, x):
        q = self.origin(e.args[0])
        self.v("one-queue", isapp(q, OUTBOX + "new"), e, x, "another queue than the one all messages go through")

    def on_push(self, e, st, x):
        self.queue(e, x)
        it = e.args[1]
        hit = [o for o in st.P if (o[0] == "msg" and it.op == "adt" and any(f is o[1] for f in it.a[3])) or (o[0] == "fwd" and self.element(it, o[1]))]
        fwd = it.op == "elem" and any(o[0] == "outbox" and o[1] is it.a[0] for o in st.P)
        self.v("message-sent-once", len(hit) == 1 or fwd, e, x, "puts something else than a message just created into the queue")
        for o in hit:
            if o[0] == "msg":
                self.addressed(it, o, st, x, e)
        return st._replace(P=st.P - frozenset(hit))

    def on_extend(self, e, st, x):
        self.queue(e, x)
        hit = [o for o in st.P if o[0] in ("outbox", "side") and o[1] is e.args[1]]
        self.v("message-sent-once", len(hit) == 1, e, x, "puts something else into the queue than the messages just created")
        return st._replace(P=st.P - frozenset(hit))

    def on_pop(self, e, st, x):
        self.queue(e, x)
        d = x.dec(isvar(e.ret, "Some"))
        if d is False:
            return st
        m = somev(e.ret) if d else e.ret
        return st._replace(P=st.P | {("in", m), ("popped", m)}, S=EMPTY, A=None)

    def on_preprocess_message(self, e, st, x):
        pop = [o for o in st.P if o[0] == "popped"]
        s, k, f = in_state(e.args[0])
        a, k2, f2 = in_state(e.args[1])
        ok = len(pop) == 1 and k is F(pop[0][1], "to") and k2 is k and s is a and (f, f2) == ("session", "accum")
        self.v("delivered-to-the-addressee", ok, e, x, "the message is delivered to another session than its addressee's")
        if ok:
            st = st._replace(S=frozenset([e.args[0]]), A=frozenset([mval(e.args[1])]), made=True, C=None, gate=None)
        return Monitor.on_preprocess_message(self, e, st, x)

    def continued(self, e, st, x):
        self.v("right-session", self.is_(st.S, e.args[1]), e, x, "another session than the current one is continued")
        self.acc(e, st, x, e.args[2])
        self.rng_is(e.args[0], e, x)
        self.v("round-worked-off", st.made, e, x, "the session is continued before a message was created for every destination", "messages")
        left = [o for o in st.P if o[0] not in ("popped", "owner", "side")]
        self.v("nothing-left-behind", not left, e, x, "the session is continued with: %s" % ", ".join(sorted(self.show(o) for o in left)))
        st = st._replace(S=EMPTY, A=None)
        if self.good(x, e.ret) is False:
            return self.fallible(e, st, x)
        return st._replace(P=st.P | {("state", F(okv(e.ret), "0")), ("outbox", F(okv(e.ret), "1"))})

    def rng_is(self, r, e, x):
        self.v("caller-randomness", r.op == "mref" and self.origin(r) is self.rng, e, x, "the randomness does not come from the caller's generator")

    def on_terminate(self, e, st, x):
        s, k, f = in_state(e.args[0])
        a, k2, f2 = in_state(e.args[1])
        self.v("terminated-at-the-end", k is not None and k is k2 and s is a and k.op == "ekey" and k.a[0] is s, e, x,
               "terminates something else than one of the sessions left over")
        return self.fallible(e, st, x)

    def on_terminate_due_to_errors(self, e, st, x):
        if self.entries is not None:
            self.v("terminated-at-the-end", False, e, x, "a session is ended by the runner")
            return st
        return self.fallible(e, Monitor.on_terminate_due_to_errors(self, e, st, x), x)

    def push_update(self, rec, p, st, x):
        r = Monitor.push_update(self, rec, p, st, x)
        P = set(r.P)
        own = [o for o in P if o[0] == "owner"]
        pop = [o for o in P if o[0] == "popped"]
        new = [o for o in P if o[0] == "state"]
        for m, v in p.updates.items():
            mu = rec.mu.get(m)
            if mu is None or v.op != "ins":
                continue
            b = v.a[0].a[0] if v.a[0].op == "rem" and v.a[0].a[1] is v.a[1] else v.a[0]
            if b is not mu:
                continue
            hit = [o for o in new if o[1] is v.a[2]]
            over = self.finished_state(x, mu, v.a[1])
            g = T_("get", mu, v.a[1])
            same = v.a[2] is g or (isadt(v.a[2], "State", "Finished") and F(v.a[2], "0") is fld(g, "Finished", "0"))
            if not hit and not same:
                continue
            self.states.add(mu)
            if own:
                k = v.a[1]
                signer, sess = own[0][1], own[0][2]
                ok = k.op == "app" and (k.a[0].endswith("::verifying_key") and mval(k.a[1][0]) is signer or k.a[0] == SESSION + "verifier" and mval(k.a[1][0]) is sess)
                self.v("state-kept-for-its-party", bool(ok), None, x, "the state of a new session is stored under another identifier", "new")
            else:
                self.v("state-kept-for-its-party", len(pop) == 1 and v.a[1] is F(pop[0][1], "to"), None, x,
                       "the new state is not stored for the addressee of the message")
            P -= set(hit)
            if hit or over:
                P -= set(own) | set(pop)
            if same and over and pop:
                P.discard(("in", pop[0][1]))
        for o in pop:
            # nothing changes for a session which is over
            if o in P and any(self.finished_state(x, mu, F(o[1], "to")) and p.updates.get(m, mu) is mu for m, mu in rec.mu.items()):
                P -= {o, ("in", o[1])}
        return r._replace(P=frozenset(P))

    def finished_state(self, x, mu, k):
        g = T_("get", mu, k)
        return x.dec(isvar(g, "Finished")) is True or x.dec(isvar(g, "InProgress")) is False


def sync_queue(S):
    """the queue neither loses nor doubles a message"""
    A1, A2 = sym("arg1"), sym("arg2")
    for x in S.run(OUTBOX + "new"):
        S.xob("queue-starts-empty", "", x.kind == "ret" and x.val.op == "adt" and len(x.val.a[3]) == 1 and x.val.a[3][0].op == "empty", x,
              "a new queue is not empty")
    for x in S.run(OUTBOX + "push"):
        c = content(x)
        S.xob("queue-keeps-all", "push", x.kind == "ret" and c is not None and appended(x, c, A2), x, "pushing does something else than adding the message")
    for x in S.run(OUTBOX + "extend", lambda n, f: n == OUTBOX + "push"):
        ls = [e for e in x.st.events() if e.kind == "loop"]
        ok = x.kind == "ret" and len(ls) == 1 and ls[0].done is not None and bool(ls[0].extra.its) and plain(ls[0].done) is A2
        if ok:
            for p in ls[0].extra.parts:
                cs = [c for c in flat(p.events) if c.name == OUTBOX + "push"]
                ok = ok and len(cs) == 1 and cs[0].args[1].op == "elem" and cs[0].args[1].a[0] is A2
        S.xob("queue-keeps-all", "extend", ok, x, "extending does something else than adding each of the messages")
    n = 0
    for x in S.run(OUTBOX + "pop"):
        if x.kind == "panic":
            S.xob("queue-gives-one", "panic", drawn(x), x, "taking a message out of the queue can panic")
            continue
        v = x.val
        if isadt(v, "Option", "None"):
            S.xob("queue-gives-one", "none", content(x) is None and any(isinstance(t, T) and t.op == "isempty" and b is True for t, b in x.facts.items()), x,
                  "nothing is taken out of a queue which is not empty")
            continue
        if isadt(v, "Option", "Some"):
            v = v.a[3][0]
        c = content(x)
        n += 1
        ok = c is not None and v.op == "idx"
        if ok:
            vec, i = v.a
            if c.op == "vrem":
                ok = c.a[0] is vec and c.a[1] is i and vec.op == "fld"
            elif c.op == "ins":
                ok = c.a[2].op == "vrem" and c.a[2].a[0] is vec and c.a[2].a[1] is i and vec is T_("get", c.a[0], c.a[1]) and x.no(T_("isempty", c.a[2]))
            elif c.op == "rem":
                ok = vec is T_("get", c.a[0], c.a[1]) and x.yes(T_("isempty", T_("vrem", vec, i)))
            else:
                ok = False
        S.xob("queue-gives-one", "", ok, x, "the message taken out of the queue is not the only one removed from it")
    S.need("queue-gives-one", "paths", n, 1)
    for x in S.run(OUTBOX + "is_empty"):
        v = x.val
        ok = x.kind == "ret" and v.op == "isempty" and v.a[0].op == "fld" and v.a[0].a[0] is A1
        S.xob("queue-empty-when-empty", "", ok, x, "the queue does not report correctly whether it is empty")


def content(x):
    """what the queue holds afterwards (None: unchanged)"""
    p = x.post(1)
    if p is sym("arg1"):
        return None
    if p.op == "adt" and len(p.a[3]) == 1:
        return p.a[3][0]
    if p.op == "with" and p.a[0] is sym("arg1") and len(p.a[1]) == 1:
        return p.a[1][0][2]
    return T_("unknown", p)


def appended(x, c, m):
    if c.op == "push":
        return c.a[1] is m and c.a[0].op == "fld" and c.a[0].a[0] is sym("arg1")
    if c.op == "ins" and c.a[0].op == "fld" and c.a[0].a[0] is sym("arg1") and c.a[2].op == "push" and c.a[2].a[1] is m:
        old = c.a[2].a[0]
        if old.op == "empty":
            return x.has(c.a[0], c.a[1]) is False
        return old is T_("get", c.a[0], c.a[1])
    return False


def drawn(x):
    """the panic concerns an index drawn from the right range, or an entry without messages (which pop never leaves behind)"""
    for t, b in x.facts.items():
        if not isinstance(t, T):
            continue
        if t.op == "isempty" and b is True:
            return True
        for s in subterms(t):
            if s.op == "app" and s.a[0].endswith("::gen_range"):
                r = s.a[1][1]
                fs = r.a[3] if r.op == "adt" else ()
                return len(fs) == 2 and fs[0] is INT(0) and fs[1].op == "len" and fs[1].a[0].op in ("fld", "get") and short(r.a[0]) == "Range"
    return False


def report_of(c, B):
    """one party's report put into the reports"""
    if c.op != "ins" or c.a[0].op != "acc":
        return False
    k, v = c.a[1], c.a[2]
    if not (k.op == "ekey" and k.a[0] is B):
        return False
    if v is fld(T_("get", B, k), "Finished", "0"):
        return True
    return v.op == "fld" and v.a[1] == "Ok" and isapp(v.a[0], SESSION + "terminate") and in_state(v.a[0].a[1][0])[:2] == (B, k) \
        and in_state(v.a[0].a[1][1])[:2] == (B, k)


def calls_directly(S, key, what):
    b = S.prog.bodies(key)
    return ("::" + what) in json.dumps(b[1][b[0]].blocks)


def local_error(M, x, n):
    n["failed"] += 1
    M.v("error-has-a-cause", x.err() is not None and bool(list(failure_reason(x, x.val))), None, x, "a local error without anything having failed")


def sync_continue(S, prop):
    """continuing one session as far as it goes"""
    xs = S.run(prop, opaque_api)
    M = SyncMonitor(S, xs, short(prop), rng=sym("arg1"))
    init = MST(frozenset([sym("arg2")]), frozenset([sym("arg3")]), None, frozenset([empty_vec()]), True, None, False, False, EMPTY, EMPTY, (), EMPTY, EMPTY)
    n = {"waiting": 0, "finished": 0, "hopeless": 0, "failed": 0}
    for x in xs:
        sts = M.run(x.st.events(), {init}, x)
        if x.kind == "panic":
            S.xob("no-panic", M.name, False, x, "panics")
            continue
        for st in sts:
            ok = x.ok()
            if ok is None:
                local_error(M, x, n)
                continue
            state, out = F(ok, "0"), F(ok, "1")
            M.v("no-failure-ignored", not st.P, None, x, "something is left over: %s" % ", ".join(sorted(M.show(o) for o in st.P)))
            M.v("messages-handed-back", st.O is not None and out in st.O, None, x, "the messages handed back are not those created")
            if isadt(state, "State", "InProgress"):
                n["waiting"] += 1
                M.v("state-handed-back", M.is_(st.S, F(state, "session")) and M.is_(st.A, F(state, "accum")), None, x, "not the current session with its accumulator")
                M.v("waits-only-when-not-ready", st.gate is None and st.made and st.C is None
                    and any(isapp(t.a[0], SESSION + "can_finalize") for t in x.facts if isinstance(t, T) and t.op == "isvar"), None, x,
                    "a session is left waiting although its round can be finalized or never will")
            else:
                rep = F(state, "0") if isadt(state, "State", "Finished") else None
                hopeless = rep is not None and rep.op == "fld" and rep.a[1] == "Ok" and isapp(rep.a[0], SESSION + "terminate_due_to_errors")
                done = rep is not None and rep.op == "fld" and rep.a[1] == "Finished" and rep.a[0].op == "fld" and isapp(rep.a[0].a[0], SESSION + "finalize_round")
                n["hopeless" if hopeless else "finished"] += 1
                M.v("state-handed-back", hopeless or done, None, x, "the session is over without the report of its end")
    M.flush()
    for k in n:
        S.need("endings", M.name + ":" + k, n[k], 1)
    for what in ("make_message", "add_artifact", "process_message", "add_processed_message", "finalize_round", "sent"):
        S.need("exercised", M.name + ":" + what, M.count.get(what, 0), 1)


@check("C31")
def c31(S):
    prop = sorted({interp.norm(k.split("#[")[0]) for k in S.prog.roots if interp.norm(k.split("#[")[0]).startswith(SYNC)
                   and calls_directly(S, k, "can_finalize")} - {SYNC + "run_sync"})
    S.need("exercised", "function continuing a session", len(prop), 1)
    prop = prop[0]
    sync_continue(S, prop)
    # all sessions
    root = SYNC + "run_sync"
    xs = S.run(root, lambda n, f: n in API or n in (SESSION + "new", prop) or n in QUEUE)
    M = SyncMonitor(S, xs, short(root), entries=sym("arg2"), propagate=prop, rng=sym("arg1"))
    init = MST(EMPTY, None, None, None, False, None, False, False, EMPTY, EMPTY, (), EMPTY, EMPTY)
    n = {"ok": 0, "failed": 0}
    for x in xs:
        sts = M.run(x.st.events(), {init}, x)
        # a queue made on the way replaces the one the messages are in
        made = {c.ret for c in flat(x.st.events()) if c.kind == "call" and c.name == OUTBOX + "new"}
        again = [c for e in x.st.events() if e.kind == "loop" for c in flat([e]) if c.kind == "call" and c.name == OUTBOX + "new"]
        M.v("one-queue", len(made) <= 1 and not again, again[0] if again else None, x, "another queue is made while messages may be in the first one", "made")
        if x.kind == "panic":
            S.xob("no-panic", M.name, unknown_addressee(x), x, "panics although the addressee has a session")
            continue
        for st in sts:
            ok = x.ok()
            if ok is None:
                local_error(M, x, n)
                continue
            n["ok"] += 1
            M.v("no-failure-ignored", not st.P, None, x, "something is left over: %s" % ", ".join(sorted(M.show(o) for o in st.P)))
            M.v("stops-when-nothing-is-left", emptied(x), None, x, "stops without having found the queue empty")
            r = F(ok, "reports")
            good = r.op == "fold" and r.a[1].op == "empty" and plain(r.a[0]) is not None and plain(r.a[0]) in M.states
            M.v("one-report-each", good, None, x, "the reports are not collected from the states of all sessions")
            if good:
                B = plain(r.a[0])
                for c, v in r.a[2]:
                    M.v("one-report-each", report_of(v, B), None, x, "a party's report is not that of its session: " + clip(pretty(v), 300), "entry")
    M.flush()
    for k in n:
        S.need("endings", M.name + ":" + k, n[k], 1)
    S.need("exercised", "one session identifier", int(len(M.sids) == 1), 1)
    for what in ("session", "continued", "make_message", "add_artifact", "preprocess_message", "process_message", "add_processed_message", "sent", "pop"):
        S.need("exercised", M.name + ":" + what, M.count.get(what, 0), 1)
    sync_queue(S)


def unknown_addressee(x):
    return any(isinstance(t, T) and t.op == "has" and b is False and t.a[1].op == "fld" and t.a[1].a[2] == "to" for t, b in x.facts.items())


def emptied(x):
    """the last thing done with the queue was finding it empty"""
    last = None
    for e in x.st.events():
        if e.kind == "loop":
            if any(c.name in QUEUE for c in flat([e])):
                last = e if e.done is not None else None
        elif e.kind == "call" and e.name in QUEUE:
            last = e
    if last is None or last.kind == "loop":
        return False
    if last.name == OUTBOX + "is_empty":
        return x.yes(last.ret)
    if last.name == OUTBOX + "pop":
        return x.dec(isvar(last.ret, "Some")) is False
    if last.name == OUTBOX + "len":
        return x.yes(eq(last.ret, INT(0))) or x.no(T_("lt", INT(0), last.ret))
    return False
