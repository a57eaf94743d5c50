"""C21: reinterpretation of values; C30: what the public API lets its users do; C29: auto traits."""
import re
from lib import *
from session_rules import *
from misc_rules import short_, mref_of

# how a value can be taken for a value of another type
REINTERPRET = ("Box::from_raw", "Rc::from_raw", "Arc::from_raw", "ptr::read", "mem::transmute", "mem::transmute_copy", "ptr::const_ptr::read", "ptr::mut_ptr::read",
               "intrinsics::transmute", "NonNull::read")
EXPN_OK = ("core", "alloc", "std", "tokio")


def is_reinterpret(n):
    return any(n == r or n.endswith("::" + r) for r in REINTERPRET) or n.endswith("downcast_unchecked")


def own_body(prog, root):
    k, bs = prog.bodies(root)
    out = [bs[k]]
    out += [b for kk, b in bs.items() if kk != k and "{closure" in kk and norm(kk.split("#")[0]).startswith(norm(k.split("#")[0]))]
    return out


def own_calls(prog, root):
    for b in own_body(prog, root):
        for bl in b.blocks:
            t = bl["t"] if bl else None
            if t and t[0] == "call" and t[1][0] == "k" and isinstance(t[1][1], dict) and t[1][1].get("fn"):
                yield t[1][1]["fn"], t


def raw_derefs(prog, root):
    """places reached through a raw pointer"""
    for b in own_body(prog, root):
        raw = {i for i, t in enumerate(b.locals) if isinstance(t, str) and t.startswith("*")}
        def walk(j):
            if isinstance(j, list):
                if len(j) == 2 and isinstance(j[0], int) and isinstance(j[1], list) and j[0] in raw and j[1] and j[1][0] == "*":
                    yield j
                for k in j:
                    yield from walk(k)
        for bl in b.blocks:
            if bl:
                yield from walk(bl["s"])
                yield from walk(bl["t"])


def roots_named(prog, n):
    return [r for r in prog.roots if norm(r.split("#[")[0]) == n]


def all_events(x):
    """(state, event) of everything that may happen on the path"""
    out = []

    def go(y, evs):
        for e in evs:
            out.append((y, e))
            if e.kind == "loop":
                for p in e.extra.parts:
                    go(X(x.I, interp.Out("part", p.st), x.root), p.events)
    go(x, x.st.events())
    return out


class Guards:
    def __init__(self, S):
        self.S = S
        self.memo = {}

    def default_of(self, name):
        """the terms returned by the default body of a trait method no implementation replaces, else None"""
        if name not in self.memo:
            tr, m = name.rsplit("::", 1)
            over = [i for i in self.S.prog.ix["impls"] if i.get("trait") == tr and m in i["items"]]
            r = None
            if not over and roots_named(self.S.prog, name):
                xs = self.S.run(name)
                if all(x.kind == "ret" for x in xs) and len({x.val for x in xs}) == 1:
                    r = xs[0].val
            self.memo[name] = r
        return self.memo[name]

    def tid(self, t, evs):
        """the type (or the value) whose identity t is"""
        if t.op == "app" and t.a[0] == "core::any::TypeId::of":
            return ("type", t.a[1][-1].a[0][len("type "):])
        if t.op == "app" and len(t.a[1]) == 1:
            if t.a[0].endswith("Any::type_id"):
                return ("value", mref_of(t.a[1][0]))
            d = self.default_of(t.a[0])
            if d is not None and self.tid(d, ()) == ("type", "Self"):
                return ("value", mref_of(t.a[1][0]))
        return None

    def equalities(self, x, evs):
        res = []
        for t, b in x.facts.items():
            if b is not True or not isinstance(t, T):
                continue
            if t.op == "eq":
                p = (self.tid(t.a[0], evs), self.tid(t.a[1], evs))
                if None not in p:
                    res.append(p)
            elif t.op == "app":
                if t.a[0].startswith("<(dyn core::any::Any") and t.a[0].endswith("::is"):
                    for _, e in evs:
                        if e.kind == "call" and e.ret is t and e.extra[0]:
                            res.append((("type", e.extra[0][-1]), ("value", mref_of(t.a[1][0]))))
                    continue
                d = self.default_of(t.a[0])
                if d is not None and d.op == "eq":
                    p = (self.tid(d.a[0], ()), self.tid(d.a[1], ()))
                    if None not in p and all(k == "type" and re.match(r"^\w+$", n) for k, n in p) and p[0] != p[1]:
                        for _, e in evs:
                            if e.kind == "call" and e.ret is t and len(e.extra[0]) == 2:
                                res.append(tuple(("type", u) for u in e.extra[0]))
        return res


def guarded(G, x, e, evs):
    """(ok, why)"""
    targs = [t for t in e.extra[0]] if e.extra else []
    targs = [t for t in targs if t not in ("alloc::alloc::Global",)]
    src_v = None
    if e.name.endswith("from_raw"):
        tgt = targs[0]
        src = None
        for _, f in evs:
            if f.kind == "call" and f.name.endswith("into_raw") and f.ret is e.args[0]:
                src, src_v = f.extra[0][0], f.args[0]
    elif "transmute" in e.name:
        src, tgt, src_v = targs[0], targs[1], e.args[0]
    elif e.name.endswith("downcast_unchecked"):
        src, tgt, src_v = None, targs[-1], e.args[0]
    else:
        tgt, src = targs[0], None
        for _, f in evs:
            if f.kind == "call" and f.name.endswith("into_raw") and f.ret is e.args[0]:
                src, src_v = f.extra[0][0], f.args[0]
    if src is None and src_v is None:
        return False, "the source of the conversion to %s is not known" % tgt
    if src == tgt:
        return True, ""
    for a, b in G.equalities(x, evs):
        for p, q in ((a, b), (b, a)):
            if p == ("type", tgt) and (q == ("type", src) and not str(src).startswith("dyn ") or q == ("value", mref_of(src_v))):
                return True, ""
    return False, "a value of type %s becomes one of type %s without the two type identities being compared" % (src, tgt)


@check("C21")
def c21(S):
    P = S.prog
    G = Guards(S)
    owners = {}
    for u in P.ix["unsafes"]:
        if u["user"]:
            owners.setdefault(norm(u["owner"].split("::{closure")[0]), u["span"])
    for f in P.ix["fns"]:
        if f.get("unsafe"):
            owners.setdefault(norm(f["def"]), f["span"])
    S.notes.append("unsafe code in: " + (", ".join(sorted(owners)) or "nowhere"))
    for i in P.ix["impls"]:
        if i.get("unsafe") and not i["derived"]:
            S.ob("no-other-unsafe-code", "implementations", False, i["span"], "unsafe implementation %s" % i["trait_full"])
    S.ob("no-other-unsafe-code", "implementations", True, "%d implementations" % len(P.ix["impls"]), "")
    for o in sorted(owners):
        rs = roots_named(P, o)
        S.ob("no-other-unsafe-code", "analysed", bool(rs), owners[o], "unsafe code outside the analysed functions: %s" % o)
        for r in rs:
            for fn, t in own_calls(P, r):
                if fn.get("unsafe"):
                    n = norm(fn.get("rdef") or fn["def"])
                    S.ob("no-other-unsafe-code", short_(o), is_reinterpret(n) or n in owners, t[5], "unsafe operation %s in %s" % (n, o))
            for d in raw_derefs(P, r):
                S.ob("no-other-unsafe-code", short_(o), False, owners[o], "a raw pointer is dereferenced in %s" % o)
    # every function that performs such a conversion, wherever it is
    todo, done, n = sorted(o for o in owners if any(fn.get("unsafe") and is_reinterpret(norm(fn.get("rdef") or fn["def"])) for r in roots_named(P, o) for fn, _ in own_calls(P, r))), set(), 0
    work = [(o, None) for o in todo]
    while work:
        o, why = work.pop()
        if o in done:
            continue
        done.add(o)
        bad = []
        for x in S.run(o):
            evs = all_events(x)
            conv = False
            for y, e in evs:
                if e.kind == "call" and is_reinterpret(e.name):
                    n += 1
                    conv = True
                    ok, txt = guarded(G, y, e, evs)
                    if ok:
                        S.xob("compared-before-converting", short_(o), True, y)
                    else:
                        bad.append((y, txt))
            if not conv and o in todo and x.kind == "ret":
                S.xob("unconverted-otherwise", short_(o), unconverted(x), x, "no conversion, yet the result is " + clip(pretty(x.val), 200))
        if bad:
            fns = [f for f in P.ix["fns"] if norm(f["def"]) == o]
            hidden = fns and not any(f.get("exported") or f.get("impl_trait") or f.get("in_trait") for f in fns)
            callers = sorted({norm(r.split("#[")[0]) for r in P.roots if norm(r.split("#[")[0]) != o for fn, _ in own_calls(P, r) if norm(fn.get("rdef") or fn["def"]) == o}) if hidden else []
            if callers:
                work += [(c, bad) for c in callers]
            else:
                for y, txt in bad:
                    S.xob("compared-before-converting", short_(o), False, y, txt)
    S.notes.append("%d conversions examined" % n)
    # the two conversions of the library: equal types are converted, to the value itself
    a1 = sym("arg1")
    k = {"equal": 0, "different": 0}
    for x in S.run("protocol::dyn_round::BoxedTypedRound::try_downcast"):
        if x.kind != "ret":
            S.xob("converts-exactly-when-equal", "try_downcast", False, x, "panics")
        elif x.err() is not None:
            k["different"] += 1
            S.xob("converts-exactly-when-equal", "try_downcast", x.err() is a1 and type_test(G, x) is False, x, "gives up although the types are equal, or does not return the original")
        else:
            k["equal"] += 1
            S.xob("converts-exactly-when-equal", "try_downcast", x.ok() is not None and type_test(G, x) is True and F(a1, "0") in subterms(x.ok()), x, clip(pretty(x.val), 200))
    for w, c in k.items():
        S.need("converts-exactly-when-equal", w, c, 1)
    for root in ("protocol::dyn_round::Payload::downcast", "protocol::dyn_round::Artifact::downcast", "protocol::dyn_round::BoxedTypedRound::downcast"):
        c = 0
        for x in S.run(root):
            c += 1
            o = x.ok()
            S.xob("converts-exactly-when-equal", short_(root), x.kind == "ret" and (isadt(x.err(), "LocalError") if o is None else F(a1, "0") in subterms(o)), x, clip(pretty(x.val), 200))
        S.need("converts-exactly-when-equal", root, c, 2)


def type_test(G, x):
    for t, b in x.facts.items():
        if isinstance(t, T) and (t.op == "eq" and G.tid(t.a[0], ()) and G.tid(t.a[1], ()) or t.op == "isvar" and t.a[0].op == "app" and "downcast" in t.a[0].a[0]):
            return b if t.op == "eq" or t.a[1] in ("Ok", "Some") else not b
    return None


def unconverted(x):
    v = x.val
    return v is not None and (isadt(v, "Option", "None") or x.err() is not None or (v.op == "bool" or isinstance(v, T) and v.op in ("false", "true")))


# ---------------------------------------------------------------------------------------------------- C30
def occurrences(ty, path):
    """how a type with this path occurs in a printed type: a set of 'value', 'shared', 'mut'"""
    res = set()
    i = 0
    for m in re.finditer(r"(?<![\w:])" + re.escape(path) + r"(?![\w])", ty):
        res.add(context(ty, m.start()))
    return res


def context(ty, pos):
    """the innermost reference around a position of a printed type"""
    stack, cur = [], "value"   # one frame per open bracket: the reference in force inside it
    frame = "value"
    i = 0
    while i < pos:
        c = ty[i]
        if ty.startswith("->", i):
            i += 2
            frame = stack[-1] if stack else "value"
            continue
        if c in "<([":
            stack.append(frame if frame != "value" else (stack[-1] if stack else "value"))
            frame = stack[-1]
        elif c in ">)]":
            frame = stack.pop() if stack else "value"
            frame = stack[-1] if stack else "value"
        elif c in ",;":
            frame = stack[-1] if stack else "value"
        elif c == "&":
            m = re.match(r"&('\w+ )?(mut )?", ty[i:])
            outer = stack[-1] if stack else "value"
            new = "mut" if m.group(2) else "shared"
            frame = "shared" if "shared" in (outer, new, frame) else new
            i += m.end() - 1
        i += 1
    return frame


def split_sig(sig):
    """(argument types, output type) of a printed function signature"""
    s = re.sub(r"^(for<[^>]*> )?(unsafe )?(extern \"\w+\" )?fn", "", sig)
    d, i = 0, 0
    for i, c in enumerate(s):
        if c in "(<[":
            d += 1
        elif c in ")]" or c == ">" and s[i - 1] != "-":
            d -= 1
        if d == 0:
            break
    args, rest = s[1:i], s[i + 1:]
    out = rest.split("->", 1)[1].strip() if "->" in rest else "()"
    parts, d, cur = [], 0, ""
    for j, c in enumerate(args):
        if c in "(<[":
            d += 1
        elif c in ")]" or c == ">" and args[j - 1] != "-":
            d -= 1
        if c == "," and d == 0:
            parts.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        parts.append(cur.strip())
    return parts, out


class Api:
    def __init__(self, S):
        self.S = S
        self.ix = S.prog.ix
        self.adts = {a["path"]: a for a in self.ix["adts"]}
        self.sigs = [(f, *split_sig(f["sig"])) for f in self.ix["fns"] if f["public"] or self.trait_impl(f)]

    def trait_impl(self, f):
        """a method of an implementation users can call through the trait"""
        if f.get("impl_trait") is None and " as " not in f["def"] and "<impl " not in f["def"]:
            return False
        a = self.adts.get(f.get("impl_adt"))
        tr = f.get("impl_trait") or ""
        local = {t["path"]: t for t in self.ix["traits"]}
        return (a is None or a["public"]) and (tr not in local or local[tr]["public"])

    def path(self, name):
        r = [p for p in self.adts if p.split("::")[-1] == name and not p.startswith("dev::")]
        if len(r) != 1:
            raise EngineError("type %s: %d found" % (name, len(r)))
        return r[0]

    def carriers(self, path):
        """the types users can take a value of the type out of"""
        res = {path}
        while True:
            new = {a["path"] for a in self.adts.values() if a["public"] and a["path"] not in res
                   and any(f[3] and any(occurrences(f[1], c) for c in res) for v in a["variants"] for f in v["fields"])}
            if not new:
                return res
            res |= new

    def holders(self, path):
        """the types that contain one, accessible or not"""
        res = {path}
        while True:
            new = {a["path"] for a in self.adts.values() if a["path"] not in res and any(any(occurrences(f[1], c) for c in res) for v in a["variants"] for f in v["fields"])}
            if not new:
                return res
            res |= new


def occ(ty, paths):
    r = set()
    for p in paths:
        r |= occurrences(ty, p)
    return r


def outputs(out, self_path, f):
    return re.sub(r"\bSelf\b", self_path, out)


@check("C30")
def c30(S):
    A = Api(S)
    names = ("VerifiedMessage", "ProcessedMessage", "ProcessedArtifact", "RoundAccumulator", "Session", "NoMessage", "NoArtifact", "SessionReport", "RoundOutcome")
    pt = {n: A.path(n) for n in names}
    S.notes.append("%d functions users can call" % len(A.sigs))
    S.need("public-functions", "found", len(A.sigs), 60)
    # fields
    for n in names[:7]:
        a = A.adts[pt[n]]
        fs = [f for v in a["variants"] for f in v["fields"]]
        S.ob("fields-hidden", n, len(a["variants"]) == 1 and bool(fs) and any(not f[3] and f[2] != "pub" for f in fs) and not any(f[3] for f in fs), a["span"],
             "users can build or take apart a %s: %s" % (n, [(f[0], f[2]) for f in fs]))
    vm, ses, acc = pt["VerifiedMessage"], pt["Session"], pt["RoundAccumulator"]
    made = {n: 0 for n in names}

    def allowed(n, f, args, out):
        d = f["def"]
        ins = lambda p, how=("value", "shared", "mut"): any(occurrences(a, p) & set(how) for a in args)
        m = d.split("::")[-1]
        if n == "VerifiedMessage":
            if d.startswith(ses + "::") and m in ("preprocess_message", "finalize_round"):
                return True
            return any(occ(a, A.carriers(vm) | {pt["ProcessedMessage"]}) - {"mut"} for a in args) and unchanged(S, f, "VerifiedMessage")
        if n == "ProcessedMessage":
            return ins(ses) and ins(vm, ("value",)) or ins(pt[n], ("value",))
        if n == "ProcessedArtifact":
            return ins(ses) or ins(pt[n], ("value",))
        if n == "RoundAccumulator":
            return ins(ses) and not ins(acc) or ins(acc, ("value",))
        if n == "Session":
            return d == ses + "::<P, SP>::new" or (norm(d) == ses + "::new") or ins(ses, ("value",)) or any(occ(a, A.carriers(ses)) & {"value"} for a in args)
        if n in ("NoMessage", "NoArtifact"):
            return "serde::de::Deserialize" in d or "::clone::Clone>::clone" in d
        return True

    for f, args, out in A.sigs:
        sp = f.get("impl_adt") or "Self"
        o = re.sub(r"\bSelf\b", sp, out)
        for n in names[:7]:
            how = occ(o, A.carriers(pt[n]))
            if "value" in how or "mut" in how:
                made[n] += 1
                S.ob("no-other-source", n, "mut" not in how and allowed(n, f, args, o), "%s %s" % (f["span"], f["def"]), "users can obtain a %s through %s" % (n, f["def"]))
            hit = [a for a in args if "mut" in occurrences(re.sub(r"\bSelf\b", sp, a), pt[n])]
            if n not in ("RoundAccumulator",):
                S.ob("not-modified", n, not hit, "%s %s" % (f["span"], f["def"]), "users can modify a %s through %s" % (n, f["def"]))
            elif hit:
                S.ob("not-modified", n, any(occurrences(a, ses) for a in args), "%s %s" % (f["span"], f["def"]), "users can modify an accumulator without its session through %s" % f["def"])
        ends = occ(o, A.carriers(pt["SessionReport"])) & {"value", "mut"}
        inp = {h for a in args for h in occurrences(a, ses) | occurrences(a, acc)}
        src = any(occ(a, A.carriers(pt["SessionReport"])) for a in args)
        if ends and not src:
            made["SessionReport"] += 1
            S.ob("session-used-up", short_(norm(f["def"])), inp <= {"value"}, "%s %s" % (f["span"], f["def"]),
                 "a session is finished, but the session or its accumulator is only borrowed")
    for n, c in (("VerifiedMessage", 3), ("ProcessedMessage", 1), ("ProcessedArtifact", 1), ("RoundAccumulator", 1), ("Session", 2), ("SessionReport", 3)):
        S.need("no-other-source", n, made[n], c)
    # local data stays local
    for i in S.prog.ix["impls"]:
        tr = i.get("trait") or ""
        if tr.endswith("serde::ser::Serialize") or tr.endswith("serde::de::Deserialize"):
            local = [n for n in ("Payload", "Artifact", "ProcessedArtifact", "ProcessedMessage", "RoundAccumulator", "Session") if i.get("adt", "").split("::")[-1] == n and not i["adt"].startswith("dev::")]
            S.ob("local-data-not-serializable", (i.get("adt") or "other").split("::")[-1], not local and re.match(r"^\w+$", i["self"]) is None, i["span"], "%s for %s" % (tr, i["self"]))
    for n in ("Payload", "Artifact"):
        a = A.adts[A.path(n)]
        S.ob("local-data-not-serializable", n, not a["public"], a["span"], "%s can be named and taken apart by users" % n)
    # what the two sources give out was verified
    g = S.borrow("C01", lambda b: True)
    S.need("verified-at-the-source", "C01", len(g), 5)


def unchanged(S, f, name):
    """the function hands out messages it was given"""
    if f.get("derived"):
        return True
    n = norm(f["def"])
    for x in S.run(n):
        if x.kind == "ret" and any(isadt(u, name) for u in subterms(x.val)):
            return False
    return True


# ---------------------------------------------------------------------------------------------------- C29
WITNESS_TOML = """[package]
name = "manul-witness"
version = "0.0.0"
edition = "2021"
[lib]
path = "%s"
[dependencies]
manul = { path = "%s", features = ["tokio", "dev"] }
rand_core = "0.6.4"
tokio = { version = "1", default-features = false, features = ["sync"] }
tokio-util = { version = "0.7", default-features = false }
[workspace]
"""


def witness(src):
    """type checks the witness crate against the current tree: (functions, {function: first error})"""
    import facts as fm, fcntl, json, os, shutil, subprocess
    text = open(src).read().splitlines()
    at, fns, cur = {}, [], None
    for n, l in enumerate(text, 1):
        m = re.match(r"fn (\w+)", l)
        if m:
            cur = m.group(1)
            fns.append(cur)
        at[n] = cur
    d = os.path.join(fm.BUILD, "witness")
    with open(os.path.join(fm.BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        os.makedirs(d, exist_ok=True)
        cp = os.path.join(d, "lib.rs")
        shutil.copyfile(src, cp)
        new = WITNESS_TOML % (cp, os.path.join(fm.REPO, "manul"))
        open(os.path.join(d, "Cargo.toml"), "w").write(new)
        if os.path.exists(os.path.join(fm.REPO, "Cargo.lock")):
            shutil.copy(os.path.join(fm.REPO, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(fm.BUILD, "target"), CARGO_NET_OFFLINE="true")
        env.pop("RUSTFLAGS", None)
        p = subprocess.run(["cargo", "+nightly", "check", "--offline", "--message-format=json"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    errs, other = {}, []
    for l in p.stdout.splitlines():
        if not l.startswith("{"):
            continue
        j = json.loads(l)
        m = j.get("message")
        if j.get("reason") != "compiler-message" or m.get("level") != "error":
            continue
        sp = [s for s in m["spans"] if s["file_name"].endswith("lib.rs") and j["target"]["name"].endswith("witness")]
        if not sp or not j["target"]["name"].endswith("witness"):
            if m["spans"] or m.get("rendered"):
                other.append(m["rendered"])
            continue
        prim = [s for s in sp if s["is_primary"]] or sp
        errs.setdefault(at[prim[0]["line_start"]], (m.get("code") or {}).get("code", ""), )
        errs[at[prim[0]["line_start"]]] = ((m.get("code") or {}).get("code") or "", m["rendered"])
    if p.returncode != 0 and not errs:
        raise EngineError("the witness crate could not be checked: " + ("\n".join(other) or p.stderr)[-1500:])
    return fns, errs


@check("C29")
def c29(S):
    import os
    src = os.path.join(os.path.dirname(HERE), "witness", "lib.rs")
    fns, errs = witness(src)
    fns = [f for f in fns if f not in ("send", "sync", "send_val")]
    S.need("auto-traits-for-all-parameters", "witnesses", len(fns), 25)
    S.notes.append("witness functions type checked against the current tree: " + ", ".join(fns))
    stale = {f: e for f, e in errs.items() if e[0] in ("E0432", "E0433", "E0412", "E0425", "E0599", "E0061", "E0107")}
    if stale:
        raise EngineError("the witnesses do not fit the public API: " + list(stale.values())[0][1][:800])
    for f in fns:
        S.ob("auto-traits-for-all-parameters", f, f not in errs, "witness/lib.rs fn " + f, errs.get(f, ("", ""))[1])
    for f in errs:
        if f not in fns:
            S.ob("auto-traits-for-all-parameters", str(f), False, "witness/lib.rs", errs[f][1])
