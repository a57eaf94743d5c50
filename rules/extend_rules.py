"""C19: extended rounds answer everything from the original round except what the extension produces."""
from lib import *
from session_rules import *
from echo_rules import find_adt
from chain_rules import path_to, walk, arg_is, rng_from, calls, type_arg, METHODS, DYN, EP

EXT = "dev::extend::"
REXT = EXT + "RoundExtension::"
DEXT = EXT + "DynRoundExtension::"
ROUND = "protocol::round::Round::"
TYPEID = "DynTypeId::get_type_id"
MADE = {"make_direct_message": (3,), "make_echo_broadcast": (), "make_normal_broadcast": ()}
A5, A6 = sym("arg5"), sym("arg6")


def type_ids(x, round_):
    """the run-time type identity of the typed round inside a boxed one, as mentioned on this path"""
    r = []
    for k in x.facts:
        if isinstance(k, T):
            for t in subterms(k):
                if isapp(t, TYPEID) and any(u is round_ for u in subterms(t)) and t not in r:
                    r.append(t)
    return r


def pieces(t, round_):
    while t.op == "fld":
        t = t.a[0]
        if t is round_:
            return True
    return t is round_


def wrapped(S, x, key, out, round_, exts):
    """out is round_ with the extension registered for its type applied, or passed through if there is none"""
    ids = [t for t in type_ids(x, round_) if pieces(t.a[1][0], round_)]
    if not S.xob("extensions-stay", key + " type looked up", len(ids) == 1, x):
        return None
    h = x.has(exts, ids[0])
    if h is True:
        c = out.a[0] if out.op == "fld" and out.a[1] == "Some" else None
        ok = c is not None and isapp(c, DEXT + "extend_round") and c.a[1][1] is round_ and c.a[1][2] is exts and \
            isapp(c.a[1][0], DEXT + "clone_boxed") and c.a[1][0].a[1][0] is get(exts, ids[0])
        S.xob("extensions-stay", key + " extended", ok, x, clip(pretty(out), 400))
        return "extended"
    p = find_adt(out, "PassthroughRound")
    ok = h is False and p is not None and path_to(p, round_) is not None and path_to(p, exts) is not None
    S.xob("extensions-stay", key + " not extended", ok, x, clip(pretty(out), 400))
    return "passed"


def wrap_exits(S, key, xs, made, result_of, exts):
    """the exits of a function that wraps a round obtained from another call"""
    n = {}
    for x in xs:
        cs = made(x)
        if not S.xob("extensions-stay", key + " one round", len(cs) == 1, x):
            continue
        c = cs[0].ret
        if x.no(isvar(c, "Ok")):
            S.xob("original-unchanged", key + " error", x.err() is errv(c), x)
            n["err"] = 1
            continue
        r = result_of(x, okv(c))
        if r is None:
            n["res"] = 1
            res = fld(okv(c), "Result", "0")
            S.xob("original-unchanged", key + " result", x.ok() is not None and (x.ok() is okv(c) or x.ok().op == "adt" and x.ok().a[1] == "Result" and
                                                                               fld(x.ok(), "Result", "0") is res), x)
            continue
        if x.kind == "panic" or x.err() is not None:
            refused(S, x, key, r, exts)
            continue
        v = x.ok()
        if not S.xob("extensions-stay", key + " outcome", v is not None, x):
            continue
        if v.op == "adt" and v.a[1] == "AnotherRound":
            v = fld(v, "AnotherRound", "0")
        n[wrapped(S, x, key, v, r, exts)] = 1
    return n


def refused(S, x, key, r, exts):
    """no wrapped round only for one that is not a typed round, or if an extension denies the type it was registered for"""
    dyn = x.yes(isvar(F(r, "0"), "Dynamic"))
    deny = False
    for t in type_ids(x, r):
        for k, v in x.facts.items():
            if isinstance(k, T) and k.op == "isvar" and isapp(k.a[0], DEXT + "extend_round") and x.no(isvar(k.a[0], "Some")) and \
                    any(u is get(exts, t) for u in subterms(k.a[0])) and x.has(exts, t) is True:
                deny = True
    S.xob("extensions-stay", key + " refused", dyn and x.err() is not None or deny, x)


@check("C19")
def c19(S):
    n = {}
    # ---- how extended and passed-through rounds are represented
    W = lambda m: impl_fn(S, "RoundExtensionWrapper", "DynRoundExtension", m)
    ext = {}
    tid = set()
    for x in S.run(W("extend_round")):
        v = x.val
        if x.kind == "ret" and v.op == "adt" and v.a[1] == "Some":
            r = find_adt(v, "ExtendedRound")
            ids = [k for k, b in x.facts.items() if b is True and isinstance(k, T) and k.op == "eq" and any(isapp(t, "TypeId::of") for t in k.a)]
            ok = r is not None and len(ids) == 1
            if not S.xob("exactly-its-type", "extended only after the type check", ok, x):
                continue
            n["ext"] = 1
            t = [u for u in ids[0].a if isapp(u, "TypeId::of")][0]
            o = [u for u in ids[0].a if u is not t]
            S.xob("exactly-its-type", "type of the round given", len(o) == 1 and isapp(o[0], TYPEID) and pieces(o[0].a[1][0], A2), x)
            tid.add(type_arg(t))
            ext["extensions"] = path_to(r, A3)
            for nme, val in zip(r.a[2], r.a[3]):
                if val is A3:
                    continue
                ss = list(subterms(val))
                if any(u is A2 for u in ss):
                    ext["round"] = ((None, nme),)
                elif any(u is A1 for u in ss):
                    S.xob("exactly-its-type", "the extension itself", pieces(val, A1), x)
                    ext["extension"] = ((None, nme),)
        else:
            ok = x.kind == "ret" and v.op == "adt" and v.a[1] == "None" and (
                x.yes(isvar(F(A2, "0"), "Dynamic")) or any(b is False and isinstance(k, T) and k.op == "eq" and any(isapp(t, "TypeId::of") for t in k.a)
                                                        for k, b in x.facts.items()))
            S.xob("exactly-its-type", "refused only for another type", ok, x)
    S.need("exactly-its-type", "extension applied", n.get("ext", 0), 1)
    for x in S.run(W("clone_boxed")):
        S.xob("exactly-its-type", "cloned", x.kind == "ret" and isadt(x.val, "RoundExtensionWrapper") and pieces(x.val.a[3][0], A1), x, clip(pretty(x.val), 200))
    if len(ext) != 3:
        raise EngineError("the parts of the extended round were not found: %s" % sorted(ext))
    R, E, X_ = (walk(A1, ext[k]) for k in ("round", "extension", "extensions"))
    # ---- registration under the type the extension declares
    for x in S.run(EXT + "ExtendableEntryPoint::extend"):
        m = F(x.post(1), "extensions")
        ok = x.kind == "ret" and m.op == "ins" and m.a[0] is F(A1, "extensions") and isapp(m.a[1], "TypeId::of") and type_arg(m.a[1]) in tid and len(tid) == 1 and \
            isadt(m.a[2], "RoundExtensionWrapper") and pieces(m.a[2].a[3][0], A2)
        S.xob("exactly-its-type", "registered", ok, x, clip(pretty(m), 300))
        S.xob("exactly-its-type", "nothing else changed", F(x.post(1), "entry_point") is F(A1, "entry_point"), x)
        n["reg"] = 1
    S.need("exactly-its-type", "registration", n.get("reg", 0), 1)
    for x in S.run(EXT + "ExtendableEntryPoint::with_extension"):
        m = F(x.val, "extensions")
        ok = x.kind == "ret" and m.op == "ins" and m.a[0] is F(A1, "extensions") and isapp(m.a[1], "TypeId::of") and type_arg(m.a[1]) in tid
        S.xob("exactly-its-type", "registered by with_extension", ok and F(x.val, "entry_point") is F(A1, "entry_point"), x, clip(pretty(m), 300))
    for x in S.run(EXT + "ExtendableEntryPoint::new"):
        S.xob("original-unchanged", "no extensions at first", x.kind == "ret" and F(x.val, "extensions").op == "empty" and F(x.val, "entry_point") is A1, x)
    # ---- the extended round
    fr = lambda m: impl_fn(S, "ExtendedRound", "Round", m)
    for m in ("transition_info", "communication_info"):
        for x in S.run(fr(m)):
            S.xob("original-unchanged", "extended: " + m, x.kind == "ret" and isapp(x.res, ROUND + m) and x.res.a[1][0] is R, x, clip(pretty(x.val), 200))
    for m, extra in MADE.items():
        for x in S.run(fr(m)):
            v = x.res
            ok = x.kind == "ret" and isapp(v, REXT + m) and v.a[1][0] is E and rng_from(v.a[1][1]) and v.a[1][2] is R and all(
                arg_is(x, v.a[1][3 + i], j) for i, j in enumerate(extra))
            S.xob("extension-decides", m, ok, x, clip(pretty(v), 300))
        for x in S.run(REXT + m):
            v = x.res
            ok = x.kind == "ret" and isapp(v, ROUND + m) and v.a[1][0] is A3 and rng_from(v.a[1][1]) and (m != "make_direct_message" or v.a[1][2] is A4)
            S.xob("original-unchanged", "not overridden: " + m, ok, x, clip(pretty(v), 300))
    for x in S.run(REXT + "finalize"):
        v = x.res
        ok = x.kind == "ret" and isapp(v, ROUND + "finalize") and v.a[1][0] is A3 and rng_from(v.a[1][1]) and v.a[1][2] is A4 and v.a[1][3] is A5
        S.xob("original-unchanged", "not overridden: finalize", ok, x, clip(pretty(v), 300))
    for x in S.run(fr("receive_message")):
        cs = calls(x, ROUND + "receive_message")
        ok = len(cs) == 1 and cs[0].args[0] is R and cs[0].args[1] is A2 and all(F(cs[0].args[2], p) is F(A3, p) for p in PARTS)
        if not S.xob("original-unchanged", "extended: receive_message", ok and x.kind == "ret", x):
            continue
        c = cs[0].ret
        if x.ok() is not None:
            S.xob("original-unchanged", "extended: payload", x.yes(isvar(c, "Ok")) and x.ok() is okv(c), x)
            continue
        src, e = errv(c), x.err()
        good = False
        for k in ("Local", "Unprovable", "Protocol"):
            if x.yes(isvar(src, k)):
                n["err", k] = 1
                p = fld(e, k, "0") if e.op == "adt" and e.a[1] == k else None
                if p is not None and k == "Protocol" and isadt(p, "ExtendedProtocolError"):
                    p = p.a[3][0]
                good = p is fld(src, k, "0")
        S.xob("original-unchanged", "extended: error", x.no(isvar(c, "Ok")) and good, x, clip(pretty(e), 300))
    for k in ("Local", "Unprovable", "Protocol"):
        S.need("original-unchanged", "errors of kind " + k, n.get(("err", k), 0), 1)
    # ---- its protocol errors
    pe = lambda m: impl_fn(S, "ExtendedProtocolError", "ProtocolError", m)
    for m, args in (("required_messages", (A2,)), ("description", ())):
        for x in S.run(pe(m)):
            v = x.res
            S.xob("original-unchanged", "error: " + m, x.kind == "ret" and isapp(v, "ProtocolError::" + m) and pieces(v.a[1][0], A1) and v.a[1][0] is not A1 and
                  tuple(v.a[1][1:]) == args, x, clip(pretty(v), 300))
    for x in S.run(pe("verify_evidence")):
        v = x.res
        ok = x.kind == "ret" and isapp(v, "ProtocolError::verify_evidence") and pieces(v.a[1][0], A1) and v.a[1][0] is not A1 and \
            v.a[1][1] is A2 and v.a[1][2] is A3 and v.a[1][3] is A4 and v.a[1][4] is A5 and all(
                F(v.a[1][5], f) is F(A6, f) for f in ("message", "previous_messages", "combined_echos", "format"))
        S.xob("original-unchanged", "error: verify_evidence", ok, x, clip(pretty(v), 400))
    # ---- passed-through rounds
    pt = {}
    for x in S.run(EXT + "wrap_round"):
        if x.kind != "ret" or x.err() is not None:
            refused(S, x, "wrap", A1, A2)
            continue
        k = wrapped(S, x, "wrap", x.ok(), A1, A2)
        n["wrap", k] = 1
        p = find_adt(x.ok(), "PassthroughRound")
        if p is not None:
            pt["round"], pt["extensions"] = path_to(p, A1), path_to(p, A2)
    for k in ("extended", "passed"):
        S.need("extensions-stay", "wrapped: " + k, n.get(("wrap", k), 0), 1)
    if len(pt) != 2 or None in pt.values():
        raise EngineError("the parts of the passed-through round were not found")
    O, OX = walk(A1, pt["round"]), walk(A1, pt["extensions"])
    fp = lambda m: impl_fn(S, "PassthroughRound", "DynRound", m)
    for m, args in METHODS.items():
        if m == "finalize":
            continue
        for x in S.run(fp(m)):
            cs = calls(x, DYN + m)
            ok = x.kind == "ret" and len(cs) == 1 and x.res is cs[0].ret and cs[0].args[0] is O and all(
                arg_is(x, cs[0].args[i + 1], j) for i, j in enumerate(args))
            if not ok and x.kind == "ret" and len(cs) == 1 and cs[0].args[0] is O:  # taken apart and put together again
                c = cs[0].ret
                ok = (x.ok() is okv(c) and x.yes(isvar(c, "Ok")) or x.err() is errv(c) and x.no(isvar(c, "Ok"))) and all(
                    arg_is(x, cs[0].args[i + 1], j) for i, j in enumerate(args))
            S.xob("original-unchanged", "passed through: " + m, ok, x, clip(pretty(x.val), 300) if x.val is not None else "")
    # ---- finalization and the start keep the extensions
    another = lambda x, o: fld(o, "AnotherRound", "0") if x.yes(isvar(o, "AnotherRound")) else None
    fin_of = lambda name, obj: lambda x: [c for c in calls(x, name) if c.args[0] is obj]
    k = wrap_exits(S, "passed-through finalize", S.run(fp("finalize")), fin_of(DYN + "finalize", O), another, OX)
    for x in S.run(fp("finalize")):
        for c in calls(x, DYN + "finalize"):
            S.xob("original-unchanged", "passed through: finalize", all(arg_is(x, c.args[i], j) for i, j in ((1, 2), (2, 3), (3, 4))), x)
    for g in ("err", "res", "extended", "passed"):
        S.need("extensions-stay", "passed-through finalize: " + g, k.get(g, 0), 1)
    k = wrap_exits(S, "extended finalize", S.run(fr("finalize")), fin_of(REXT + "finalize", E), another, X_)
    for x in S.run(fr("finalize")):
        for c in calls(x, REXT + "finalize"):
            S.xob("extension-decides", "finalize", rng_from(c.args[1]) and c.args[2] is R and c.args[3] is A3 and c.args[4] is A4, x)
    for g in ("err", "res", "extended", "passed"):
        S.need("extensions-stay", "extended finalize: " + g, k.get(g, 0), 1)
    em = lambda m: impl_fn(S, "ExtendableEntryPoint", "EntryPoint", m)
    xs = S.run(em("make_round"))
    k = wrap_exits(S, "first round", xs, lambda x: calls(x, EP + "make_round"), lambda x, r: r, F(A1, "extensions"))
    for x in xs:
        for c in calls(x, EP + "make_round"):
            S.xob("original-unchanged", "first round", c.args[0] is F(A1, "entry_point") and rng_from(c.args[1]) and c.args[2] is A3 and c.args[3] is A4, x)
    for g in ("err", "extended", "passed"):
        S.need("extensions-stay", "first round: " + g, k.get(g, 0), 1)
    for x in S.run(em("entry_round_id")):
        S.xob("original-unchanged", "entry round id", x.kind == "ret" and isapp(x.val, EP + "entry_round_id") and type_arg(x.val) == "of EP", x, clip(pretty(x.val), 200))
