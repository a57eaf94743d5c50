"""C36: no ambient inputs and no hidden state; C37: library operations terminate. Queries over every body of the crate."""
import re
from lib import *
from runner_rules import mval
from session_rules import *
from structure_rules import own_body
from error_rules import is_test

# where a value could come from that is neither an argument nor derived from one
AMBIENT = ("std::time::", "std::env::", "std::fs::", "std::net::", "std::io::", "std::process::", "std::thread::", "std::sync::", "std::hash::random",
           "std::collections::hash", "hashbrown::", "core::time::", "tokio::time::", "tokio::fs::", "tokio::net::", "tokio::process::", "tokio::sync::mutex",
           "tokio::sync::rwlock", "tokio::sync::once_cell", "core::cell::", "core::sync::atomic", "once_cell::", "parking_lot", "getrandom", "rand::rngs",
           "rand::thread_rng", "rand::random", "rand_core::os", "rand::rngs::thread", "alloc::rc::", "std::os::", "std::random")
AMBIENT_RE = re.compile("|".join(r"(?<![\w:])" + re.escape(p) for p in AMBIENT))
# tracing's callsites are registered once; whether a message is logged does not change what the library does
LOGGING = re.compile(r"tracing(_core)?::")


def lib_roots(S):
    for r in sorted(S.prog.roots):
        n = norm(r.split("#[")[0])
        if is_test(n) or n.startswith("dev::") or re.match(r"<?(&?dev::|.* for dev::)", n) or "dev::" in n.split(" as ")[0]:
            continue
        yield r, n


def fn_of(t):
    if t and t[0] == "call" and t[1][0] == "k" and isinstance(t[1][1], dict):
        return t[1][1].get("fn")
    return None


def callee(fn):
    return fn.get("rdef") or fn["def"]


def is_generator(ty):
    """a random generator or a reference to one, not a type that mentions one deep inside"""
    ty = re.sub(r"^(&('\w+ )?(mut )?|alloc::boxed::Box<|\()+", "", ty or "")
    return bool(re.match(r"(dyn |impl )?(for<.*?> )?([\w:]*::)?(CryptoRngCore|RngCore|CryptoRng|BoxedRng|\w*Rng)\b", ty))


DRAWS = re.compile(r"(RngCore|CryptoRngCore|Rng)::(fill_bytes|try_fill_bytes|next_u32|next_u64|gen|fill|random)$")


def places(x):
    """the locals an operand or an rvalue reads"""
    if isinstance(x, list):
        if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
            yield x[0]
        else:
            for y in x:
                yield from places(y)


def feeds(b, starts):
    """every local whose value may be part of one of `starts` (in any order of the statements)"""
    src = {}
    for bl in b.blocks:
        if not bl:
            continue
        for st in bl["s"]:
            if st[0] == "=":
                src.setdefault(st[1][0], set()).update(places(st[2]))
        t = bl["t"]
        if t and t[0] == "call":
            src.setdefault(t[3][0], set()).update(places(t[2]))
    out, todo = set(), list(starts)
    while todo:
        l = todo.pop()
        if l not in out:
            out.add(l)
            todo += src.get(l, ())
    return out


def drawn_seed(b, i):
    """the argument of the call ending block i is filled from a generator on every way to it"""
    seed = feeds(b, places(b.blocks[i]["t"][2]))
    draws = set()
    for j, bl in enumerate(b.blocks):
        fn = fn_of(bl["t"]) if bl else None
        if fn is None or j == i or not DRAWS.search(fn["def"]):
            continue
        t = bl["t"]
        if t[3][0] in seed or feeds(b, places(t[2][1:])) & seed:
            draws.add(j)
    seen, todo = set(), [0]
    while todo:
        j = todo.pop()
        if j in seen or j in draws:
            continue
        seen.add(j)
        todo += succs(b.blocks[j]["t"]) if b.blocks[j] else []
    return bool(draws) and i not in seen


@check("C36")
def c36(S):
    n = calls = gens = uses = 0
    for r, name in lib_roots(S):
        n += 1
        for b in own_body(S.prog, r):
            for i, ty in enumerate(b.locals):
                m = AMBIENT_RE.search(str(ty))
                if m and not LOGGING.search(str(ty)):
                    S.ob("no-ambient-state", short_root(name), False, b.span, "a value of type %s" % clip(str(ty), 120))
            for i, bl in enumerate(b.blocks):
                fn = fn_of(bl["t"]) if bl else None
                if fn is None:
                    continue
                calls += 1
                d = callee(fn)
                at = "%s" % (bl.get("l"),)
                if AMBIENT_RE.search(d):
                    S.ob("no-ambient-input", short_root(name), False, at, "%s is called" % d)
                tys = [str(a) for a in (bl["t"][6] or [])]
                if fn["def"].endswith("clone::Clone::clone") and tys and is_generator(re.sub(r"^&(mut )?", "", tys[0])):
                    S.ob("generator-not-duplicated", short_root(name), False, at, "a random generator is cloned: both copies yield the same values")
                ret = str(bl["t"][7])
                uses += any(is_generator(t) for t in tys)
                if is_generator(ret) and not ret.startswith("&") and fn["def"].split("::")[-1] != "clone":
                    made = fn["def"].endswith("SeedableRng::from_rng") or any(is_generator(t) for t in tys) or fn.get("local")
                    made = made or fn["def"].endswith("SeedableRng::from_seed") and drawn_seed(b, i)
                    gens += 1
                    S.ob("generator-from-caller", short_root(name), bool(made), at, "a generator is made by %s, not from the caller's" % d)
        S.ob("no-ambient-input", "function", True, "", "")
    for x in S.run("session::session::SessionId::random"):
        v = F(x.val, "0") if x.isret() else None
        f = v.a[0] if v is not None and v.op == "post" else None
        S.xob("random-session-id", "all of it comes from the generator", f is not None and isapp(f, "RngCore::fill_bytes") and mval(f.a[1][0]) is A1, x, clip(pretty(x.val), 200))
    S.need("no-ambient-input", "functions", n, 150)
    S.need("no-ambient-input", "calls", calls, 1000)
    S.need("generator-from-caller", "uses", uses, 10)
    S.notes.append("%d functions, %d calls, %d of them handed a generator, %d generators made" % (n, calls, uses, gens))


def short_root(n):
    return re.sub(r"<[^<>]*>", "", n)[-80:]


# ---------------------------------------------------------------------------------------------------- C37
ENDLESS = re.compile(r"iter::sources::(repeat|from_fn|successors)|iter::adapters::cycle|range::RangeFrom")
NEXT = ("next", "next_back", "nth", "next_key", "next_entry", "next_key_seed", "next_entry_seed", "next_value", "next_element", "next_element_seed")
TAKE = ("pop", "pop_front", "pop_back", "pop_first", "pop_last", "try_recv", "swap_remove", "try_join_next")
PUT = ("push", "push_back", "push_front", "insert", "extend", "append", "entry", "get_or_insert", "extend_from_slice")


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "drop":
        return [t[2]]
    if k == "assert":
        return [t[3] if not isinstance(t[3], bool) else t[4]]
    if k == "yield":
        return [t[2]]
    return []


def sccs(nodes, succ):
    """non trivial strongly connected components (iterative Tarjan)"""
    idx, low, on, st, out, cnt = {}, {}, set(), [], [], [0]
    for root in nodes:
        if root in idx:
            continue
        work = [(root, iter(succ(root)))]
        idx[root] = low[root] = cnt[0]; cnt[0] += 1
        st.append(root); on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in nodes:
                    continue
                if w not in idx:
                    idx[w] = low[w] = cnt[0]; cnt[0] += 1
                    st.append(w); on.add(w)
                    work.append((w, iter(succ(w))))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = set()
                    while True:
                        w = st.pop(); on.discard(w); c.add(w)
                        if w == v:
                            break
                    if len(c) > 1 or v in succ(v):
                        out.append(c)
    return out


class Loops:
    def __init__(self, S, b, name):
        self.S, self.b, self.name = S, b, name
        self.n = 0
        self.refs = {}
        self.rev = {}
        for bl in b.blocks:
            for s in (bl["s"] if bl else ()):
                if s[0] == "=" and not s[1][1]:
                    rv = s[2]
                    if rv[0] == "ref" and isinstance(rv[1], list):
                        self.refs.setdefault(s[1][0], []).append(rv[1][0])
                    elif rv[0] == "use" and rv[1][0] == "p":
                        self.refs.setdefault(s[1][0], []).append(rv[1][1][0])

    def owner(self, op):
        """the locals a (re)borrowed operand may stand for"""
        if op[0] != "p":
            return set()
        out, todo = set(), [op[1][0]]
        while todo:
            l = todo.pop()
            if l in out:
                continue
            out.add(l)
            todo += self.refs.get(l, [])
        return out

    def assigned(self, scc):
        r = set()
        for i in scc:
            bl = self.b.blocks[i]
            for s in bl["s"]:
                if s[0] == "=" and not s[1][1]:
                    r.add(s[1][0])
            t = bl["t"]
            if t[0] == "call" and not t[3][1]:
                r.add(t[3][0])
        return r

    def progress(self, i, scc, assigned):
        bl = self.b.blocks[i]
        t = bl["t"]
        if t[0] == "yield":
            return "waits"
        fn = fn_of(t)
        if fn is not None:
            short = fn["def"].split("::")[-1]
            arg = self.owner(t[2][0]) if t[2] else set()
            # what is iterated over or drained lives across the iterations
            roots = {l for l in arg if l not in assigned}
            tys = [str(a) for a in (t[6] or [])]
            if short in NEXT and roots and not ENDLESS.search(tys[0] if tys else ""):
                return "iterates"
            if short in TAKE and roots and not self.refilled(scc, roots):
                return "drains"
            if fn["def"].endswith("future::Future::poll"):
                return "waits"
            if short == "finalize_round":
                return "next round"
        return None

    def refilled(self, scc, roots):
        for i in scc:
            fn = fn_of(self.b.blocks[i]["t"])
            if fn is not None and fn["def"].split("::")[-1] in PUT and self.b.blocks[i]["t"][2] and self.owner(self.b.blocks[i]["t"][2][0]) & roots:
                return True
        return False

    def counter(self, scc):
        """the blocks that move a counter by a positive constant, always the same way, when the loop looks at the counter"""
        steps, seen = {}, set()
        for i in scc:
            for s in self.b.blocks[i]["s"]:
                if s[0] != "=" or s[2][0] != "bin":
                    continue
                _, op, l, r = s[2][:4]
                if op in ("Lt", "Le", "Gt", "Ge", "Ne", "Eq"):
                    for o in (l, r):
                        seen |= self.owner(o)
                if op[:3] in ("Add", "Sub") and l[0] == "p" and not l[1][1] and r[0] == "k" and isinstance(r[1], dict) and (r[1].get("int") or 0) > 0:
                    # stored back into the counter
                    back = {q[1][0] for j in scc for q in self.b.blocks[j]["s"] if q[0] == "=" and not q[1][1] and (
                        q[1][0] == s[1][0] or q[2][0] == "use" and q[2][1][0] == "p" and q[2][1][1][0] == s[1][0])}
                    for c in back & self.owner(l):
                        steps.setdefault(c, set()).add((op[:3], i))
        return {i for c, st in steps.items() if self.owner(["p", [c, []]]) & seen and len({o for o, _ in st}) == 1 for _, i in st}

    def run(self, nodes=None):
        nodes = set(i for i, bl in enumerate(self.b.blocks) if bl) if nodes is None else nodes
        succ = lambda i: succs(self.b.blocks[i]["t"])
        for c in sccs(nodes, succ):
            a = self.assigned(c)
            pr = {i for i in c if self.progress(i, c, a)} or self.counter(c)
            at = min(str(self.b.blocks[i].get("l")) for i in c)
            self.n += 1
            self.S.ob("loop-makes-progress", short_root(self.name), bool(pr), at,
                      "this loop neither consumes an iterator or a collection, nor waits, nor goes to the next round")
            if pr:
                self.run(c - pr)


@check("C37")
def c37(S):
    n = loops = 0
    edges = {}
    for r, name in lib_roots(S):
        n += 1
        for b in own_body(S.prog, r):
            L = Loops(S, b, name)
            L.run()
            loops += L.n
            for bl in b.blocks:
                fn = fn_of(bl["t"]) if bl else None
                if fn is not None and fn.get("key"):
                    edges.setdefault(r.split("#[")[0], {})[fn["key"].split("#[")[0]] = str(bl.get("l"))
    for c in sccs(set(edges), lambda k: list(edges.get(k, ()))):
        k = sorted(c)[0]
        at = next((l for w, l in edges[k].items() if w in c), "")
        S.ob("no-recursion", short_root(norm(k)), False, at, "recursive: %s" % " -> ".join(short_root(norm(x)) for x in sorted(c)[:6]))
    S.ob("no-recursion", "call graph", True, "", "")
    S.need("loop-makes-progress", "functions", n, 150)
    S.need("loop-makes-progress", "loops", loops, 20)
    S.need("no-recursion", "call edges", sum(len(v) for v in edges.values()), 300)
    S.notes.append("%d functions, %d loops, %d call edges" % (n, loops, sum(len(v) for v in edges.values())))


# ---------------------------------------------------------------------------------------------------- C38
LOSSY = ("BitOr", "BitAnd", "Shl", "Shr", "Div", "Rem", "Mul")


LOSSY_CALLS = tuple("core::ops::bit::%s::" % k for k in ("BitOr", "BitAnd", "Shl", "Shr")) + tuple("core::ops::arith::%s::" % k for k in ("Div", "Rem", "Mul"))


def updated(part, t):
    """the value after a turn of the loop of what is t before it"""
    if t.op == "mu":
        return next((v for k, v in part.updates.items() if (str(k[0]), str(k[1])) == (str(t.a[1]), str(t.a[2]))), None)
    if t.op == "fld":
        v = updated(part, t.a[0])
        return None if v is None else fld(v, t.a[1], t.a[2])
    return None


def next_cell(part, c, was):
    """c = was + 1, or 0 if that is the number of cells"""
    up = T_("add", was, INT(1))
    if c.op == "bin" and c.a[0] == "Rem":
        return c.a[1] is up and c.a[2].op == "len"
    facts = [(k, v) for k, v in part.facts.items() if isinstance(k, T)]
    at_end = [v for k, v in facts if k.op == "eq" and up in k.a and any(y.op == "len" for y in k.a)]
    at_end += [not v for k, v in facts if k.op == "lt" and k.a[0] is up and k.a[1].op == "len"]
    if c is up:
        return False in at_end
    return pretty(c) == "0" and True in at_end


@check("C38")
def c38(S):
    DS = "dev::session_parameters::"
    n = {}
    f = S.run(impl_fn(S, "TestVerifier", "DigestVerifier", "verify_digest"))
    for x in f:
        same = x.dec(eq(F(A1, "0"), F(A3, "signed_by")))
        if x.isret():
            good = x.ok() is not None
            n["verify", good] = n.get(("verify", good), 0) + 1
            S.xob("signature-attributed", "accepted iff made by this party" if good else "rejected iff made by another party", same is good, x)
        else:
            S.xob("signature-attributed", "no panic", False, x)
    for x in S.run(impl_fn(S, "TestSigner", "RandomizedDigestSigner", "try_sign_digest_with_rng")):
        v = x.ok() if x.isret() else None
        if S.xob("signature-attributed", "always signs", v is not None, x):
            n["sign"] = 1
            S.xob("signature-attributed", "signed as the signer", F(v, "signed_by") is F(A1, "0"), x, clip(pretty(v), 200))
    for x in S.run(impl_fn(S, "TestSigner", "Keypair", "verifying_key")):
        n["key"] = 1
        S.xob("identity", "verifying key of the signer", x.isret() and F(x.val, "0") is F(A1, "0"), x)
    for f in ("TestSigner::new", "TestVerifier::new"):
        for x in S.run(DS + f):
            n[f] = 1
            S.xob("identity", f, x.isret() and F(x.val, "0") is A1, x)
    for x in S.run(DS + "TestVerifier::id"):
        n["id"] = 1
        S.xob("identity", "id", x.isret() and x.val is F(A1, "0"), x)
    # the hash covers all the data: every byte reaches the buffer, and all of the buffer is the result
    for x in S.run(impl_fn(S, "TestHasher", "Update", "update")):
        if not x.isret():
            continue
        loops = [e for e in x.st.events() if e.kind == "loop"]
        byte = [p for e in loops for p in e.extra.parts]
        if not byte:
            continue
        n["update"] = 1
        src = [e.done for e in loops if e.done is not None]
        whole = any((t.op == "seq" and t.a[0] is A2) or (t.op == "range" and F(t.a[0], "end").op == "len" and F(t.a[0], "end").a[0] is A2 and pretty(F(t.a[0], "start")) == "0") for t in src)
        # a loop over an index of its own is not followed: only whether each step takes in a byte is looked at then
        S.xob("hash-covers-data", "all the data is looked at", whole or not src, x, "iterates over %s" % ", ".join(clip(pretty(t), 120) for t in src))
        for p in byte:
            if any(isinstance(k, T) and k.op == "lt" and k.a[1].op == "len" and v is False for k, v in p.facts.items()):
                continue  # no such cell: the cursor stays below the number of cells
            S.xob("hash-covers-data", "every byte is mixed in", any(
                A2 in subterms(a) for e in p.events for a in (e.args or ())) or any(
                u.op == "elem" or u is A2 for v in p.updates.values() for u in subterms(v)), x)
            for v in p.updates.values():
                for c in [u for u in subterms(v) if u.op == "setidx"]:
                    was = c.a[1]
                    old = T_("idx", c.a[0], was)
                    S.xob("hash-covers-data", "what was there still counts", old in subterms(c.a[2]), x, "a cell becomes %s" % clip(pretty(c.a[2]), 200))
                    mix = subst(c.a[2], {u: T_("sym", "cell") for u in subterms(c.a[2]) if u.op == "idx"})
                    lossy = [u for u in subterms(mix) if u.op == "bin" and u.a[0] in LOSSY or u.op == "app" and str(u.a[0]).startswith(LOSSY_CALLS)]
                    S.xob("hash-covers-data", "mixed in without loss", not lossy, x, clip(pretty(c.a[2]), 200))
                    now = updated(p, was)
                    looped = any(u.op in ("elem", "mu", "enumix") for u in subterms(was))
                    S.xob("hash-covers-data", "every cell is used", looped, x, "always at %s" % clip(pretty(was), 100))
                    if now is not None:
                        n["cursor"] = 1
                        S.xob("hash-covers-data", "the next byte goes to the next cell", next_cell(p, now, was), x, "the cursor becomes %s" % clip(pretty(now), 200))
        for f in ("cursor", "buffer"):
            v = F(x.post(1), f) if x.post(1).op != "fold" else F(x.post(1).a[1], f)
            v = v.a[1] if v.op == "fold" else v
            S.xob("hash-covers-data", "continues where the previous call ended", A1 in subterms(v), x, "%s starts as %s" % (f, clip(pretty(v), 200)))
    for x in S.run(impl_fn(S, "TestHasher", "FixedOutput", "finalize_into")):
        n["finalize"] = 1
        S.xob("hash-covers-data", "the result is the whole buffer", x.isret() and (x.post(2) is F(A1, "buffer") or any(
            any(a is F(A1, "buffer") for a in e.args or ()) for e in x.st.events())), x, "becomes %s" % clip(pretty(x.post(2)), 200))
    for k in (("verify", True), ("verify", False), "sign", "key", "TestSigner::new", "TestVerifier::new", "id", "update", "finalize"):
        S.need("identity", str(k), n.get(k, 0), 1)
