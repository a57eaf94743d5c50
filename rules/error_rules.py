"""C25: local errors are never dropped; C08: what remote input can lead to."""
import re
from lib import *
from structure_rules import own_body
from session_rules import *
from terms import _children as interp_children
from misc_rules import short_, mref_of
from structure_rules import all_events, split_sig

LOCAL = ("LocalError",)


def generics(ty):
    """the head and the arguments of a printed type"""
    m = re.match(r"([\w:]+)(<(.*)>)?$", ty.strip(), re.S)
    if not m:
        return None, []
    d, parts, cur = 0, [], ""
    g = m.group(3) or ""
    for i, c in enumerate(g):
        if c in "<([":
            d += 1
        elif c in ")]" or c == ">" and g[i - 1] != "-":
            d -= 1
        if c == "," and d == 0:
            parts.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        parts.append(cur.strip())
    return m.group(1), parts


class Carriers:
    """where values of a type can hold a local error"""

    def __init__(self, prog):
        self.adts = {a["path"]: a for a in prog.ix["adts"]}
        self.memo = {}

    def holds(self, ty, seen=()):
        if ty in self.memo:
            return self.memo[ty]
        r = any(True for _ in self.paths(ty, sym("?"), (), seen))
        if not seen:
            self.memo[ty] = r
        return r

    def paths(self, ty, t, pre=(), seen=()):
        """[(guards, prefixes)]: the error is the last prefix if all guards (variant tests) hold; the prefixes are the values it is
        a part of"""
        h, g = generics(ty)
        pre = pre + (t,)
        if h is None or len(seen) > 5:
            return
        n = h.split("::")[-1]
        if h == "protocol::errors::LocalError":
            yield (), pre
        elif h in ("core::result::Result", "core::option::Option", "core::task::Poll", "core::task::poll::Poll", "core::ops::control_flow::ControlFlow"):
            vs = {"Result": ("Ok", "Err"), "Option": ("Some",), "Poll": ("Ready",), "ControlFlow": ("Continue", "Break")}[n]
            if n == "ControlFlow":
                g = g[::-1] if len(g) == 2 else g + ["()"]
            for v, a in zip(vs, g):
                for gs, ps in self.paths(a, fld(t, v, "0"), pre, seen):
                    yield ((t, v),) + gs, ps
        elif n == "Box" and h.startswith("alloc::") and g:
            yield from self.paths(g[0], t, pre[:-1], seen)
        elif h in self.adts and h not in seen:
            a = self.adts[h]
            for v in a["variants"]:
                for f in v["fields"]:
                    en = a["kind"] == "Enum"
                    for gs, ps in self.paths(f[1], fld(t, v["name"] if en else None, f[0]), pre, seen + (h,)):
                        yield (((t, v["name"]),) if en else ()) + gs, ps


def is_crate_fn(fn, P):
    n = fn.get("rdef") or fn["def"]
    return n


def modular(name, fn):
    """every function of the crate is analysed on its own"""
    if fn is None or "{closure" in (fn.get("rdef") or fn["def"]):
        return False
    k = fn.get("key")
    return k is not None and not fn.get("derived")


def is_test(n):
    return "::tests::" in n or n.startswith("tests::")


DROPPERS = ("mem::drop", "mem::forget")


def sinks(x, evs, updates=()):
    """everything that leaves the function (or the iteration) on the path"""
    out = []
    if x.val is not None:
        out.append(x.val)
    for k, v in x.st.env.items():
        if isinstance(k, tuple) and k and k[0] == "arg" and isinstance(v, T):
            out.append(v)
    out += [v for v in updates if isinstance(v, T)]
    for e in evs:
        if e.kind in ("call", "spawn", "send") and not e.name.endswith(DROPPERS):
            tys = getattr(e.extra[1], "argtys", None) if isinstance(e.extra, tuple) and len(e.extra) > 1 else None
            for i, a in enumerate(e.args):
                if isinstance(a, T) and (tys is None or i >= len(tys) or not tys[i].startswith("&")):
                    out.append(a)
    return out


# operations that take a part of, look at, or merely follow from a value
NOT_INSIDE = ("fld", "isvar", "not", "and", "or", "eq", "has", "isempty", "len", "post", "mref", "loc", "get", "app")
CONVERSIONS = re.compile(r"(^|::)(From|Into)::(from|into)$|^protocol::errors::LocalError::new$")


def contains(sink, ts, memo=None):
    """is one of the values ts a part of what is handed on"""
    memo = set() if memo is None else memo
    if sink in ts:
        return True
    if sink in memo:
        return False
    memo.add(sink)
    if sink.op in NOT_INSIDE and not (sink.op == "app" and CONVERSIONS.search(sink.a[0])):
        return False
    return any(contains(u, ts, memo) for u in interp_children(sink))


def retty(e):
    c = e.extra[1] if isinstance(e.extra, tuple) and len(e.extra) > 1 else None
    return getattr(c, "retty", None)


class Lost:
    def __init__(self, S):
        self.S, self.C = S, Carriers(S.prog)
        self.sites = set()
        self._q = None
        self.user_traits = tuple(norm(t["path"]) + "::" for t in S.prog.ix["traits"] if t["public"])
        self.fns = {norm(f["def"]): f for f in S.prog.ix["fns"]}

    def obligations(self, x, t, ty):
        """the local errors the value may hold on this path: (must it hold one, the values one of which has to be handed on)"""
        for gs, ps in self.C.paths(ty, t):
            ds = [x.dec(isvar(b, v)) for b, v in gs]
            if not any(d is False for d in ds):
                yield all(d is True for d in ds), ps

    def scope(self, root, x, evs, updates, args=(), rt=None):
        """obligations of one path or one loop iteration"""
        out = sinks(x, evs, updates)
        src = []
        for e in evs:
            ty = retty(e)
            if e.kind == "await" and isinstance(ty, str) and generics(ty)[0] in ("core::task::poll::Poll", "core::task::Poll"):
                ty = generics(ty)[1][0]
            if e.kind in ("call", "await") and isinstance(ty, str) and isinstance(e.ret, T):
                src.append((e.name, e.span, e.ret, ty))
        src += [("argument %d" % n, "", sym("arg%d" % n), ty) for n, ty in args]
        for name, span, t, ty in src:
            if not self.C.holds(ty):
                # failures of what the library depends on become local errors, they don't abort the program
                if x.kind == "panic" and str(x.info[1]).startswith("Result::") and generics(ty)[0] == "core::result::Result" and x.dec(isvar(t, "Ok")) is False \
                        and name not in self.fns and not re.match(r"<?(core|alloc|std)::", name):
                    self.S.xob("error-returned", short_(root), False, x, "the failure of %s (%s) panics" % (name, span))
                continue
            self.sites.add((root, name, span))
            for must, ps in self.obligations(x, t, ty):
                if x.kind == "panic" and (not must or len(ps) < 2 or name in self.queries()):
                    continue
                # a call's result also counts as handed on if the callee is given it again as part of a bigger value
                ok = any(contains(s, set(ps)) for s in out)
                ok = ok or self.answered(x, name, rt) or self.relabelled(x, rt)
                self.S.xob("error-returned", short_(root), ok, x, "the local error of %s (%s) is dropped" % (name, span))

    def queries(self):
        """Functions whose local error is a verdict on the shape of their arguments and nothing else: they change nothing, and
        the error is made on the spot after calling nothing but other such functions."""
        if self._q is None:
            calls, sigs = {}, {}
            for k in sorted(self.S.prog.roots):
                f = [f for f in self.S.prog.ix["fns"] if f["key"] == k]
                if not f or generics(split_sig(f[0]["sig"])[1])[1][1:] != ["protocol::errors::LocalError"] or any(re.match(r"&(?:'\S+ )?mut ", a) for a in split_sig(f[0]["sig"])[0]):
                    continue
                root = norm(k.split("#[")[0])
                evs = [e for x in self.S.run(root, modular, key="modular") for _, e in all_events(x) if e.kind in ("call", "await", "spawn", "send")]
                calls[root] = {e.name for e in evs if e.kind != "call" or self.may_fail(retty(e)) or self.by_user(e.name)}
            q, new = set(), {"protocol::errors::LocalError::new"}
            while new - q:
                q |= new
                new = {f for f, cs in calls.items() if cs and cs <= q}
            self._q = q
        return self._q

    def may_fail(self, ty):
        return not isinstance(ty, str) or self.C.holds(ty)

    def by_user(self, name):
        """a method of a public trait: implemented by the library's user"""
        return any(name.startswith(t) for t in self.user_traits)

    def answered(self, x, name, rt):
        """a query's negative verdict may become a negative answer (None, false, "this evidence is invalid")"""
        if rt is None or name not in self.queries():
            return False
        if re.match(r"(core::option::)?Option<|bool$", rt):
            return True
        h, g = generics(rt)
        return h == "core::result::Result" and len(g) > 1 and g[1].startswith("protocol::evidence::EvidenceError") and x.val is not None and x.dec(isvar(x.val, "Err")) is True

    def relabelled(self, x, rt):
        """the path returns another local error in its place"""
        if x.val is None or x.dec(isvar(x.val, "Ok")) is not False and x.dec(isvar(x.val, "Err")) is not True:
            return False
        return any(u.op == "app" and u.a[0] == "protocol::errors::LocalError::new" for u in subterms(x.val)) if rt else False

    def check(self, root, key):
        f = [f for f in self.S.prog.ix["fns"] if f["key"] == key]
        args, rt = [], None
        if f:
            a, rt = split_sig(f[0]["sig"])
            args = [(i + 1, t) for i, t in enumerate(a) if self.C.holds(t)]
        for x in self.S.run(root, modular, key="modular"):
            self.scope(root, x, x.st.events(), (), args, rt)
            self.loops(root, x, x.st.events())

    def loops(self, root, x, evs):
        for e in evs:
            if e.kind == "loop":
                for p in e.extra.parts:
                    px = X(x.I, interp.Out("part", p.st), x.root)
                    self.scope(root, px, p.events, tuple(p.updates.values()))
                    self.loops(root, px, p.events)


@check("C25")
def c25(S):
    L = Lost(S)
    n = 0
    for k in sorted(S.prog.roots):
        root = norm(k.split("#[")[0])
        if is_test(root):
            continue
        n += 1
        L.check(root, k)
    S.need("error-returned", "functions", n, 200)
    S.need("error-returned", "fallible calls", len(L.sites), 60)
    S.notes.append("queries: " + ", ".join(sorted(map(short_, L.queries()))))
    S.notes.append("%d functions, %d call sites that can fail locally" % (n, len(L.sites)))


# ---------------------------------------------------------------------------------------------------------------- C08

PROC_FROM = "message.from"


def local_part(x):
    """(is the value returned a failure that may be local, its local error)"""
    v = x.val
    if x.kind != "ret" or v is None or x.dec(isvar(v, "Err")) is not True and x.dec(isvar(v, "Ok")) is not False:
        return None
    e = errv(v)
    if e.op == "adt" and e.a[0].split("::")[-1] != "LocalError":
        if e.a[1] != "Local":
            return None
        return e.a[3][0]
    return e


def mentions(t, *names):
    return any(u.op == "fld" and u.a[2] in names for u in subterms(t))


def roots_of(t):
    return {u.a[0] for u in subterms(t) if u.op == "sym"}


class Remote:
    def __init__(self, S):
        self.S = S
        self.inner = {}

    def fresh(self, e):
        return e.op == "adt"

    def guard(self, x, t, b, ok_facts, root):
        """is the fact an internal-consistency condition: one that remote data has no influence on, or that the earlier
        stages of the same message's handling exclude"""
        if t.op == "isvar" and b is False and t.a[0].op == "app" and t.a[1] == "Ok" and re.search(r"(^|::)(serialize|to_vec|to_allocvec)\w*$", t.a[0].a[0]):
            return "serialization"
        if (t, b) in ok_facts:
            return None
        if mentions(t, "required_messages"):
            return "required by the protocol"
        r = roots_of(t)
        if root == APM_:
            if t.op == "has" and t.a[1] is F(sym("arg3"), PROC_FROM):
                if t.a[0] is F(A2, "payloads") and b is True:
                    return "processed twice"
                if t.a[0] is F(A2, "still_have_not_sent_messages") and b is False:
                    return "processed twice"
            return None
        # the object itself is the node's own, unless it is a piece of evidence
        if r <= {"arg1"} and (root in (PP, APM_) or root.endswith("receive_message")) and not any(u.op in ("app", "elem", "ekey", "mu") for u in subterms(t)):
            return "session state"
        return None

    def check(self, root, panics_only=False):
        S = self.S
        xs = S.run(root)
        inst = short_(root)
        ok_facts = set()
        for x in xs:
            if x.kind == "ret" and local_part(x) is None:
                ok_facts |= {(k, v) for k, v in x.facts.items() if isinstance(k, T)}
        n = 0
        for x in xs:
            if x.kind == "panic":
                S.xob("no-panic", inst, self.dominated(root, x), x, "panics")
                continue
            n += 1
            if panics_only or x.kind != "ret":
                continue
            e = local_part(x)
            if e is None:
                S.xob("remote-failure", inst, True, x)
                continue
            if not self.fresh(e):
                # the failure of a call whose declared error is local: the protocol's code or the serialization; never of
                # something that reads or checks remote data
                fn = [u.a[0] for u in subterms(e) if u.op == "app"][:1]
                bad = fn and re.search(r"(^|::)(deserialize\w*|verify_(?!evidence|direct_message_is_invalid|echo_broadcast_is_invalid|normal_broadcast_is_invalid)\w+|try_from\w*|from_bytes\w*)$", fn[0])
                S.xob("local-origin", inst, not bad, x, "the failure of %s is reported as a local error" % fn)
                continue
            gs = [g for k, v in x.facts.items() if isinstance(k, T) for g in [self.guard(x, k, v, ok_facts, root)] if g]
            S.xob("local-origin", inst, bool(gs) or self.dominated(root, x), x, "a local error that remote data can cause")
        S.need("remote-failure" if not panics_only else "no-panic", inst + " exits", n, 1)

    def dominated(self, root, x):
        """the only lookup that may panic is that of an expected echo in the echoes of the previous round"""
        if not root.endswith("::receive_message") or "EchoRound" not in root:
            return False
        from echo_rules import expected_entry, forall_states
        cov = F(A1, "echo_round_info.expected_echos")
        for k, v in x.facts.items():
            if isinstance(k, T) and k.op == "has" and v is False and k.a[0] is F(A1, "echo_broadcasts"):
                ys = forall_states(x, k.a[1].a[0]) if k.a[1].op == "ekey" else []
                if any(expected_entry(y, cov, k.a[1]) for y in [x]) or ys and all(expected_entry(y, cov, k.a[1]) for y in ys):
                    return True
        return False


APM_ = SESSION + "add_processed_message"
FACING = {"DynRound": ("receive_message",), "Round": ("receive_message",), "ProtocolError": ("verify_evidence",),
          "DynRoundInfo": ("verify_evidence", "verify_direct_message_is_invalid", "verify_echo_broadcast_is_invalid", "verify_normal_broadcast_is_invalid")}


def remote_roots(S):
    out = [PP, APM_, SESSION + "process_message", "session::evidence::Evidence::verify"]
    types = set()
    for f in S.prog.ix["fns"]:
        n = norm(f["def"])
        if is_test(n) or f["key"] not in S.prog.roots or f.get("derived"):
            continue
        m = n.split("::")[-1]
        tr = (f.get("impl_trait") or f.get("in_trait") or "").split("<")[0].split("::")[-1]
        if m in FACING.get(tr, ()):
            out.append(n)
        elif tr == "ProtocolMessagePart" or "protocol::message::ProtocolMessagePart::" in n and m in ("assert_is_none", "deserialize", "verify_is_not_some", "verify_is_some", "verify_is_not_valid", "verify_is_invalid", "verify_is_not"):
            out.append(n)
        elif (f.get("impl_adt") or "").endswith("EvidenceMessages") and f.get("exported"):
            out.append(n)
    return sorted(set(out))


@check("C08")
def c08(S):
    R = Remote(S)
    rs = remote_roots(S)
    for r in rs:
        R.check(r)
    for r in (SESSION + "finalize_round", SESSION + "terminate", SESSION + "terminate_due_to_errors", SESSION + "make_accumulator", impl_fn(S, "EchoRound", "DynRound", "finalize")):
        R.check(r, panics_only=True)
    S.need("no-panic", "entry points of remote data", len(rs), 15)
    # what makes the lookup of an expected echo and the guards of add_processed_message succeed: an accepted message of a round
    # with echo broadcasts has one, and it is kept for every party whose payload is kept
    echo_kept(S)
    allocations(S)


ALLOCATE = ("with_capacity", "reserve", "reserve_exact", "try_reserve", "from_elem", "resize", "resize_with", "repeat", "with_capacity_in")
SIZES = ("len", "min", "clamp", "size_of", "output_size", "saturating_sub", "ilog2", "deref", "as_ref", "borrow", "message_destinations", "into", "from", "clone")
GROWS = ("saturating_add", "saturating_mul", "checked_add", "checked_mul", "add", "mul", "max", "next_power_of_two", "unwrap_or", "unwrap_or_default", "expect", "unwrap", "count")


def sized_by(b, op):
    """functions whose results go into an operand"""
    out, todo, seen = set(), [], set()

    def push(o):
        if o and o[0] == "p":
            todo.append(o[1][0])
    push(op)
    defs = {}
    for bl in b.blocks:
        for s in (bl["s"] if bl else ()):
            if s[0] == "=":
                defs.setdefault(s[1][0], []).append(("s", s[2]))
        t = bl["t"] if bl else None
        if t and t[0] == "call":
            defs.setdefault(t[3][0], []).append(("c", t))
    while todo:
        l = todo.pop()
        if l in seen:
            continue
        seen.add(l)
        for k, d in defs.get(l, ()):
            if k == "c":
                fn = d[1][1].get("fn") if d[1][0] == "k" and isinstance(d[1][1], dict) else None
                out.add((fn["name"], fn["def"]) if fn else ("?", "?"))
                if fn and fn["name"] in GROWS + ("into", "from", "clone"):
                    for o in d[2]:
                        push(o)
            else:
                for o in operands_of(d):
                    push(o)
    return out


def operands_of(rv):
    for o in rv[1:]:
        if isinstance(o, list) and o and o[0] == "p":
            yield o
        elif isinstance(o, list):
            for q in o:
                if isinstance(q, list) and q and q[0] == "p":
                    yield q


def allocations(S):
    """memory is set aside according to what is there, never to a number somebody sent (which may exceed all memory)"""
    n = 0
    for k in list(S.prog.roots):
        if is_test(k):
            continue
        n += 1
        for b in own_body(S.prog, k):
            for bl in b.blocks:
                t = bl["t"] if bl else None
                fn = t[1][1].get("fn") if t and t[0] == "call" and t[1][0] == "k" and isinstance(t[1][1], dict) else None
                if fn is None or fn["name"] not in ALLOCATE or fn["def"].split("::")[0] not in ("alloc", "std", "hashbrown"):
                    continue
                for o in t[2]:
                    bad = sorted(d for m, d in sized_by(b, o) if m not in SIZES + GROWS and ("serde" in d or m == "size_hint"))
                    S.ob("no-panic", "memory set aside in %s" % norm(k.split("#")[0]), not bad, t[5] if len(t) > 5 and isinstance(t[5], str) else "", "the amount comes from %s" % ", ".join(bad))
    S.need("no-panic", "functions looked at for allocations", n, 150)


def echo_kept(S):
    n = 0
    for x in S.run(APM_):
        if x.ok() is None:
            continue
        frm = F(A3, PROC_FROM)
        acc = x.post(2)
        if x.dec(isvar(F(A3, "processed"), "Ok")) is not True:
            continue
        n += 1
        part = F(A3, "message.echo_broadcast")
        none = x.dec(isvar(F(part, MWM + ".message.0"), "Some"))
        S.xob("echo-kept", "payload", x.has(F(acc, "payloads"), frm) is True, x)
        S.xob("echo-kept", "broadcast", none is False or x.has(F(acc, "echo_broadcasts"), frm) is True, x, "the broadcast of a party whose payload is kept may be missing")
    S.need("echo-kept", "accepted messages", n, 2)
    # each sender's message is accepted for processing once, and only if it is expected; the echo round holds what the round kept
    g = S.borrow("C04", lambda b: not b.rule.startswith("round-change"))
    g += S.borrow("C06", lambda b: not b.rule.startswith("round-change"))
    g += S.borrow("C14", lambda b: b.rule == "echo-round-data" and b.inst in ("broadcasts", "round info"))
    S.need("expected-once", "borrowed", len(g), 30)
