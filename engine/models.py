"""Models of the library functions used by the crate (std collections, Option /
Result, iterators, smart pointers, digest builders, tracing, futures)."""
import copy
import re
from terms import *
import interp
from interp import Out, Ev, T_, FN, canon_seq, colls, itnum, fname, norm, mk_fold, strip_idx, chain_pieces, literal_it

M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f

    return d


def fieldwise(I, fn):
    """a hand-written eq of a local structure which is true exactly if all fields are equal"""
    memo = I.prog.__dict__.setdefault("_fieldwise", {})
    key = fn["key"]
    if key in memo:
        return memo[key]
    memo[key] = False
    ty = norm(str((fn.get("args") or [""])[0]).split("<")[0])
    adt = [a for a in I.prog.ix["adts"] if a["path"] == ty and a["kind"] == "Struct"]
    if len(adt) != 1 or key == I.root:
        return False
    fs = [f[0] for f in adt[0]["variants"][0]["fields"] if "PhantomData" not in f[1]]
    a, b = sym("eq.lhs"), sym("eq.rhs")
    J = copy.copy(I)
    J.stack = []
    try:
        for o in J.inline(key, [a, b], interp.St(), ("eq",), None):
            if o.kind != "ret":
                return False
            for res, st in [(o.val is TRUE, o.st)] if o.val in (TRUE, FALSE) else J.branch(o.st.fork(), o.val):
                ds = [J.decide(st, eq(fld(a, None, f), fld(b, None, f))) for f in fs]
                if (res and not all(d is True for d in ds)) or (not res and False not in ds):
                    return False
    except interp.EngineError:
        return False
    memo[key] = True
    return True


def lookup(fn, name, I):
    # derived impls of local types
    if fn.get("derived") and fn.get("trait") in ("core::cmp::PartialEq", "core::clone::Clone"):
        return m_eq if fn["trait"].endswith("PartialEq") and fn["name"] == "eq" else m_ne if fn["name"] == "ne" else m_id
    if (fn.get("trait") or "").startswith("core::ops::function::Fn"):
        return m_call
    if (fn.get("trait") or "").endswith("::Future") and fn.get("name") == "poll":
        return m_poll
    if fn.get("key") in I.bodies:
        if name in ERASE and I.erase:
            return m_mutid
        if fn.get("trait") == "core::cmp::PartialEq" and fn.get("name") == "eq" and fieldwise(I, fn):
            return m_eq
        return None
    if name in M:
        return M[name]
    seg = name.split("::")
    if len(seg) >= 3 and seg[-2].startswith("<impl ["):
        return M.get("slice::" + seg[-1])
    return M.get("::".join(seg[-2:]))


# contract of these is what C20 establishes (there they are analysed, not erased)
ERASE = {'protocol::dyn_round::BoxedRound::as_ref', 'protocol::dyn_round::BoxedRound::into_inner'}


def R(st, v):
    return [Out("ret", st, v)]


def V(I, st, a):
    return I.deref(st, a)


# ---------------------------------------------------------------- transparent
@model("Clone::clone", "Borrow::borrow", "ToOwned::to_owned", "AsRef::as_ref", "Deref::deref", "Box::new", "Arc::new", "Rc::new",
       "Cow::into_owned", "hint::must_use", "convert::identity", "Pin::new", "Pin::new_unchecked", "Pin::get_mut", "Pin::as_ref", "IntoFuture::into_future",
       "Box::pin", "BoxedRound::as_ref_", "Vec::as_slice", "Vec::into_boxed_slice", "slice::into_vec", "slice::to_vec", "String::as_str", "str::as_ref", "as_bytes",
       "String::as_bytes", "str::as_bytes", "black_box", "Option::cloned", "Option::copied", "Result::cloned", "Result::copied", "Option::as_deref",
       "Result::as_ref", "Option::as_ref", "Iterator::by_ref", "Arc::clone", "GenericArray::as_slice", "Box::leak", "Box::into_inner", "boxed::into_inner", "Iterator::fuse", "String::into_bytes", "String::into_boxed_str", "Box::from", "Option::as_slice_")
def m_id(I, st, args, ctx, fn):
    a = args[0]
    if fn["name"] in ("by_ref", "get_mut", "new_unchecked", "new", "pin", "as_mut"):
        return R(st, a)
    return R(st, V(I, st, a))


@model("DerefMut::deref_mut", "AsMut::as_mut", "BorrowMut::borrow_mut", "Box::as_mut", "Vec::as_mut_slice", "Pin::as_mut")
def m_mutid(I, st, args, ctx, fn):
    return R(st, args[0])


@model("Into::into", "From::from")
def m_into(I, st, args, ctx, fn):
    conv = fn.get("conv")
    if fn["name"] == "into":
        if conv == "id":
            return R(st, args[0])
        if isinstance(conv, dict):
            return I.callfn(conv, args, st, ctx)
        return I.opaque_call(fname(fn), args, st, ctx, fn)
    # external From
    tys = [norm_ty(x) for x in (fn.get("args") or [])]
    dst = fn.get("rimpl_self") or (fn.get("args") or [""])[0]
    a = V(I, st, args[0])
    if a.op == "arr" and ("BTreeSet<" in dst or "HashSet<" in dst):
        m = EMPTY("set")
        for x in a.a[0]:
            m = ins(m, x)
        return R(st, m)
    if a.op == "arr" and "BTreeMap<" in dst:
        m = EMPTY("map")
        for x in a.a[0]:
            m = ins(m, fld(x, None, "0"), fld(x, None, "1"))
        return R(st, m)
    if dst.startswith("core::option::Option<") and fn["name"] == "from":
        return R(st, some(args[0]))
    return R(st, args[0])


def norm_ty(x):
    return x


@model("mem::drop", "mem::forget")
def m_drop(I, st, args, ctx, fn):
    a = args[0]
    ty = ctx.argtys[0] if ctx.argtys else ""
    if any(x in ty for x in interp.DROPTYPES):
        st.ev = (st.ev, Ev("drop", ty, (I.snapshot(st, a),), None, ctx.span, ctx.body.deff))
    return R(st, UNIT)


@model("mem::take")
def m_take(I, st, args, ctx, fn):
    v = V(I, st, args[0])
    d = default_of(ctx.retty)
    if args[0].op == "loc":
        I.write(st, *args[0].a, d)
    return R(st, v)


@model("mem::replace")
def m_replace(I, st, args, ctx, fn):
    v = V(I, st, args[0])
    if args[0].op == "loc":
        I.write(st, *args[0].a, args[1])
    return R(st, v)


@model("mem::swap")
def m_swap(I, st, args, ctx, fn):
    a, b = args
    if a.op == "loc" and b.op == "loc":
        x, y = I.read(st, *a.a), I.read(st, *b.a)
        I.write(st, *a.a, y)
        I.write(st, *b.a, x)
        return R(st, UNIT)


def default_of(ty):
    ty = ty.strip()
    if ty.startswith("&mut "):
        ty = ty[5:]
    if "BTreeMap<" in ty.split("<")[0] + "<" or ty.split("<")[0].endswith("HashMap"):
        return EMPTY("map")
    if ty.split("<")[0].endswith(("BTreeSet", "HashSet")):
        return EMPTY("set")
    if ty.split("<")[0].endswith(("::Vec", "VecDeque", "TinyVec")):
        return EMPTY("vec")
    if ty == "bool":
        return FALSE
    if ty in ("u8", "u16", "u32", "u64", "usize", "i32", "i64"):
        return INT(0)
    if ty.startswith("core::option::Option<"):
        return NONE
    if ty == "()":
        return UNIT
    return T_("app", "default", (STR(strip_idx(ty)),))


@model("Default::default")
def m_default(I, st, args, ctx, fn):
    return R(st, default_of(ctx.retty))


def set_eq(I, st, args, ctx):
    """two sets: equal if each contains the other's elements; None if they are not sets"""
    t = [re.sub(r"^(&('\S+ )?(mut )?)+", "", x).split("<")[0] for x in ctx.argtys[:2]]
    if len(t) < 2 or not all(x.endswith("BTreeSet") for x in t):
        return None
    a, b = V(I, st, args[0]), V(I, st, args[1])
    if a is b:
        return R(st, TRUE)

    def side(x, y, part):
        def step(s, e):
            return [Out("next", s2) if v else Out("stop", s2, FALSE) for v, s2 in I.branch(s, has(y, e))]
        return lambda s: consume(I, s, IT(seq(x, "set")), ctx, step, lambda s: TRUE, part)

    r = []
    for o in side(a, b, "l")(st):
        r += side(b, a, "r")(o.st) if o.kind == "ret" and o.val is TRUE else [o]
    for o in r:
        drop_locals(o.st, ctx.fid + ("L",))
    return r


@model("PartialEq::eq")
def m_eq(I, st, args, ctx, fn):
    r = set_eq(I, st, args, ctx)
    if r is not None:
        return r
    return R(st, eq(V(I, st, args[0]), V(I, st, args[1])))


@model("PartialEq::ne")
def m_ne(I, st, args, ctx, fn):
    r = set_eq(I, st, args, ctx)
    if r is not None:
        return [Out(o.kind, o.st, bnot(o.val)) if o.kind == "ret" else o for o in r]
    # a local type: derived or hand-written eq
    return R(st, bnot(eq(V(I, st, args[0]), V(I, st, args[1]))))


@model("PartialOrd::lt", "PartialOrd::gt", "PartialOrd::le", "PartialOrd::ge")
def m_ord(I, st, args, ctx, fn):
    if "tracing" in (ctx.argtys[0] if ctx.argtys else "") or "tracing" in str(fn.get("self_ty", "")):
        return R(st, FALSE)
    op = {"lt": "Lt", "gt": "Gt", "le": "Le", "ge": "Ge"}[fn["name"]]
    return R(st, interp.binop(op, V(I, st, args[0]), V(I, st, args[1])))


@model("Not::not")
def m_not(I, st, args, ctx, fn):
    return R(st, bnot(V(I, st, args[0])))


# ---------------------------------------------------------------- formatting
@model("fmt::format", "ToString::to_string", "Arguments::new", "Arguments::from_str", "Arguments::from_str_nonconst", "Argument::new_debug",
       "Argument::new_display", "any::type_name", "String::new", "format::must_use", "slice::join", "Argument::new_lower_hex", "type_name_of_val",
       "ToString::to_string", "String::from", "Debug::fmt_", "str::to_string", "slice::concat")
def m_fmt(I, st, args, ctx, fn):
    return R(st, FMT)


# ---------------------------------------------------------------- panics
@model("panicking::panic", "panicking::panic_fmt", "panicking::panic_display", "panicking::unreachable_display", "panicking::assert_failed", "panicking::panic_explicit", "process::abort", "panicking::panic_str_2015", "rt::begin_panic")
def m_panic(I, st, args, ctx, fn):
    return [Out("panic", st, None, ("panic", fname(fn), ctx.body.deff, ctx.span))]


def panic_out(st, what, ctx):
    return Out("panic", st, None, ("panic", what, ctx.body.deff, ctx.span))


# ---------------------------------------------------------------- Option / Result
def split_opt(I, st, v):
    """-> [(is_some, payload, st)]"""
    if v.op == "adt":
        return [(v.a[1] == "Some", v.a[3][0] if v.a[3] else None, st)]
    r = []
    for k, s in I.split_variants(st, v, ["None", "Some"]):
        r.append((k == "Some", fld(v, "Some", "0"), s))
    return r


def split_res(I, st, v):
    if v.op == "adt":
        return [(v.a[1] == "Ok", v.a[3][0], st)]
    r = []
    for k, s in I.split_variants(st, v, ["Ok", "Err"]):
        r.append((k == "Ok", fld(v, k, "0"), s))
    return r


def then(outs, f):
    r = []
    for o in outs:
        if o.kind == "ret":
            r += f(o.st, o.val)
        else:
            r.append(o)
    return r


@model("Option::is_some", "Option::is_none")
def m_is_some(I, st, args, ctx, fn):
    t = isvar(V(I, st, args[0]), "Some")
    return R(st, t if fn["name"] == "is_some" else bnot(t))


@model("Result::is_ok", "Result::is_err")
def m_is_ok(I, st, args, ctx, fn):
    t = isvar(V(I, st, args[0]), "Ok")
    return R(st, t if fn["name"] == "is_ok" else bnot(t))


@model("Option::map", "Option::and_then", "Option::map_or", "Option::map_or_else", "Option::ok_or", "Option::ok_or_else", "Option::unwrap_or",
       "Option::unwrap_or_else", "Option::unwrap_or_default", "Option::is_some_and", "Option::is_none_or", "Option::filter", "Option::or", "Option::or_else",
       "Option::and", "Option::unwrap", "Option::expect", "Option::flatten", "Option::inspect", "Option::transpose", "Option::xor", "Option::zip", "Option::unwrap_unchecked")
def m_option(I, st, args, ctx, fn):
    n = fn["name"]
    r = []
    for is_some, x, s in split_opt(I, st, V(I, st, args[0])):
        if n == "map":
            r += then(I.call_value(args[1], [x], s, ctx), lambda s, v: R(s, some(v))) if is_some else R(s, NONE)
        elif n == "and_then":
            r += I.call_value(args[1], [x], s, ctx) if is_some else R(s, NONE)
        elif n == "map_or":
            r += I.call_value(args[2], [x], s, ctx) if is_some else R(s, args[1])
        elif n == "map_or_else":
            r += I.call_value(args[2], [x], s, ctx) if is_some else I.call_value(args[1], [], s, ctx)
        elif n == "ok_or":
            r += R(s, ok(x) if is_some else err(args[1]))
        elif n == "ok_or_else":
            r += R(s, ok(x)) if is_some else then(I.call_value(args[1], [], s, ctx), lambda s, v: R(s, err(v)))
        elif n == "unwrap_or":
            r += R(s, x if is_some else args[1])
        elif n == "unwrap_or_else":
            r += R(s, x) if is_some else I.call_value(args[1], [], s, ctx)
        elif n == "unwrap_or_default":
            r += R(s, x if is_some else default_of(ctx.retty))
        elif n == "is_some_and":
            r += I.call_value(args[1], [x], s, ctx) if is_some else R(s, FALSE)
        elif n == "is_none_or":
            r += I.call_value(args[1], [x], s, ctx) if is_some else R(s, TRUE)
        elif n == "filter":
            if not is_some:
                r += R(s, NONE)
            else:
                def fin(s, v, x=x):
                    return [Out("ret", s2, some(x) if b else NONE) for b, s2 in I.branch(s, v)]
                r += then(I.call_value(args[1], [x], s, ctx), fin)
        elif n == "or":
            r += R(s, some(x) if is_some else args[1])
        elif n == "or_else":
            r += R(s, some(x)) if is_some else I.call_value(args[1], [], s, ctx)
        elif n == "and":
            r += R(s, args[1] if is_some else NONE)
        elif n in ("unwrap", "expect", "unwrap_unchecked"):
            if is_some:
                r += R(s, x)
            else:
                r.append(panic_out(s, "Option::" + n, ctx))
        elif n == "flatten":
            r += R(s, x if is_some else NONE)
        elif n == "inspect":
            r += then(I.call_value(args[1], [x], s, ctx), lambda s, v, x=x: R(s, some(x))) if is_some else R(s, NONE)
        elif n == "transpose":
            if not is_some:
                r += R(s, ok(NONE))
            else:
                for isok, y, s2 in split_res(I, s, x):
                    r += R(s2, ok(some(y)) if isok else err(y))
        elif n == "zip":
            if not is_some:
                r += R(s, NONE)
            else:
                for b, y, s2 in split_opt(I, s, V(I, s, args[1])):
                    r += R(s2, some(tup([x, y])) if b else NONE)
        else:
            return None
    return r


@model("bool::then_some", "bool::then", "core::bool::<impl bool>::then_some", "core::bool::<impl bool>::then")
def m_then(I, st, args, ctx, fn):
    r = []
    for b, s in I.branch(st, V(I, st, args[0])):
        if not b:
            r += R(s, NONE)
        elif fn["name"] == "then_some":
            r += R(s, some(args[1]))
        else:
            r += then(I.call_value(args[1], [], s, ctx), lambda s, v: R(s, some(v)))
    return r


@model("Option::as_mut", "Option::as_deref_mut")
def m_as_mut(I, st, args, ctx, fn):
    l = args[0]
    if l.op != "loc":
        return R(st, l)
    r = []
    for b, x, s in split_opt(I, st, I.read(st, *l.a)):
        r += R(s, some(loc(l.a[0], l.a[1] + (("f", "Some", "0"),)))) if b else R(s, NONE)
    return r


@model("Option::take")
def m_opt_take(I, st, args, ctx, fn):
    l = args[0]
    if l.op != "loc":
        return None
    v = I.read(st, *l.a)
    I.write(st, *l.a, NONE)
    return R(st, v)


@model("Option::replace", "Option::insert")
def m_opt_replace(I, st, args, ctx, fn):
    l = args[0]
    if l.op != "loc":
        return None
    v = I.read(st, *l.a)
    I.write(st, *l.a, some(args[1]))
    if fn["name"] == "insert":
        return R(st, loc(l.a[0], l.a[1] + (("f", "Some", "0"),)))
    return R(st, v)


@model("Result::map", "Result::map_err", "Result::and_then", "Result::or_else", "Result::unwrap", "Result::expect", "Result::ok", "Result::err",
       "Result::unwrap_or", "Result::unwrap_or_else", "Result::unwrap_or_default", "Result::is_ok_and", "Result::is_err_and", "Result::map_or", "Result::map_or_else",
       "Result::and", "Result::or", "Result::unwrap_err", "Result::expect_err", "Result::inspect_err", "Result::inspect", "Result::flatten", "Result::transpose", "Result::iter")
def m_result(I, st, args, ctx, fn):
    n = fn["name"]
    r = []
    for isok, x, s in split_res(I, st, V(I, st, args[0])):
        if n == "map":
            r += then(I.call_value(args[1], [x], s, ctx), lambda s, v: R(s, ok(v))) if isok else R(s, err(x))
        elif n == "map_err":
            r += R(s, ok(x)) if isok else then(I.call_value(args[1], [x], s, ctx), lambda s, v: R(s, err(v)))
        elif n == "and_then":
            r += I.call_value(args[1], [x], s, ctx) if isok else R(s, err(x))
        elif n == "or_else":
            r += R(s, ok(x)) if isok else I.call_value(args[1], [x], s, ctx)
        elif n in ("unwrap", "expect"):
            if isok:
                r += R(s, x)
            else:
                r.append(panic_out(s, "Result::" + n, ctx))
        elif n in ("unwrap_err", "expect_err"):
            if not isok:
                r += R(s, x)
            else:
                r.append(panic_out(s, "Result::" + n, ctx))
        elif n == "ok":
            if not isok:
                note_discard(I, s, x, ctx)
            r += R(s, some(x) if isok else NONE)
        elif n == "err":
            r += R(s, NONE if isok else some(x))
        elif n == "unwrap_or":
            if not isok:
                note_discard(I, s, x, ctx)
            r += R(s, x if isok else args[1])
        elif n == "unwrap_or_else":
            r += R(s, x) if isok else I.call_value(args[1], [x], s, ctx)
        elif n == "unwrap_or_default":
            if not isok:
                note_discard(I, s, x, ctx)
            r += R(s, x if isok else default_of(ctx.retty))
        elif n == "is_ok_and":
            r += I.call_value(args[1], [x], s, ctx) if isok else R(s, FALSE)
        elif n == "is_err_and":
            r += R(s, FALSE) if isok else I.call_value(args[1], [x], s, ctx)
        elif n == "map_or":
            r += I.call_value(args[2], [x], s, ctx) if isok else R(s, args[1])
        elif n == "map_or_else":
            r += I.call_value(args[2], [x], s, ctx) if isok else I.call_value(args[1], [x], s, ctx)
        elif n == "and":
            r += R(s, args[1] if isok else err(x))
        elif n == "or":
            r += R(s, ok(x) if isok else args[1])
        elif n == "inspect_err":
            r += R(s, ok(x)) if isok else then(I.call_value(args[1], [x], s, ctx), lambda s, v, x=x: R(s, err(x)))
        elif n == "inspect":
            r += R(s, err(x)) if not isok else then(I.call_value(args[1], [x], s, ctx), lambda s, v, x=x: R(s, ok(x)))
        elif n == "flatten":
            r += R(s, x if isok else err(x))
        elif n == "transpose":
            if not isok:
                r += R(s, some(err(x)))
            else:
                for b, y, s2 in split_opt(I, s, x):
                    r += R(s2, some(ok(y)) if b else NONE)
        else:
            return None
    return r


def note_discard(I, st, x, ctx):
    st.ev = (st.ev, Ev("discard", "discard", (x,), None, ctx.span, ctx.body.deff))


CF = "core::ops::control_flow::ControlFlow"


@model("Try::branch")
def m_branch(I, st, args, ctx, fn):
    v = V(I, st, args[0])
    ty = ctx.argtys[0] if ctx.argtys else ""
    if ty.startswith("core::option::Option"):
        return [Out("ret", s, adt(CF, "Continue", ("0",), (x,)) if b else adt(CF, "Break", ("0",), (NONE,))) for b, x, s in split_opt(I, st, v)]
    if ty.startswith("core::result::Result"):
        return [Out("ret", s, adt(CF, "Continue", ("0",), (x,)) if b else adt(CF, "Break", ("0",), (err(x),))) for b, x, s in split_res(I, st, v)]
    if ty.startswith("core::ops::control_flow"):
        return R(st, v)
    return None


@model("FromResidual::from_residual")
def m_residual(I, st, args, ctx, fn):
    v = V(I, st, args[0])
    if v.op == "adt" and v.a[0] == OPTION:
        return R(st, NONE)
    if v.op == "adt" and v.a[0] == CF:
        return R(st, v)
    e = fld(v, "Err", "0")
    conv = fn.get("conv")
    if isinstance(conv, dict):
        return then(I.callfn(conv, [e], st, ctx), lambda s, x: R(s, err(x)))
    return R(st, err(e))


@model("Try::from_output")
def m_from_output(I, st, args, ctx, fn):
    ty = ctx.retty
    if ty.startswith("core::option"):
        return R(st, some(args[0]))
    if ty.startswith("core::result"):
        return R(st, ok(args[0]))
    return None


# ---------------------------------------------------------------- collections
@model("BTreeMap::new", "HashMap::new")
def m_map_new(I, st, args, ctx, fn):
    return R(st, EMPTY("map"))


@model("BTreeSet::new", "HashSet::new")
def m_set_new(I, st, args, ctx, fn):
    return R(st, EMPTY("set"))


@model("Vec::new", "Vec::with_capacity", "VecDeque::new", "TinyVec::new", "VecDeque::with_capacity")
def m_vec_new(I, st, args, ctx, fn):
    return R(st, EMPTY("vec"))


@model("BTreeMap::contains_key", "BTreeSet::contains", "HashMap::contains_key", "HashSet::contains")
def m_contains(I, st, args, ctx, fn):
    return R(st, has(V(I, st, args[0]), V(I, st, args[1])))


@model("slice::contains", "Vec::contains")
def m_slice_contains(I, st, args, ctx, fn):
    return R(st, T_("vhas", V(I, st, args[0]), V(I, st, args[1])))


@model("BTreeMap::get", "HashMap::get", "BTreeSet::get", "BTreeMap::get_key_value")
def m_get(I, st, args, ctx, fn):
    m, k = V(I, st, args[0]), V(I, st, args[1])
    if "set" in fname(fn):
        return R(st, opt(has(m, k), k))
    if fn["name"] == "get_key_value":
        return R(st, opt(has(m, k), tup([k, get(m, k)])))
    return R(st, opt(has(m, k), get(m, k)))


@model("BTreeMap::get_mut", "HashMap::get_mut")
def m_get_mut(I, st, args, ctx, fn):
    l, k = args[0], V(I, st, args[1])
    if l.op != "loc":
        return None
    m = I.read(st, *l.a)
    r = []
    for b, s in I.branch(st, has(m, k)):
        r += R(s, some(loc(l.a[0], l.a[1] + (("at", k),))) if b else NONE)
    return r


@model("Ordering::then_with", "Ordering::then")
def m_then_with(I, st, args, ctx, fn):
    r = []
    for b, s in I.branch(st, isvar(V(I, st, args[0]), "Equal")):
        r += R(s, args[0]) if not b else I.call_value(args[1], [], s, ctx) if fn["name"] == "then_with" else R(s, args[1])
    return r


@model("slice::get_mut", "Vec::get_mut", "slice::first_mut", "Vec::first_mut")
def m_sget_mut(I, st, args, ctx, fn):
    l = args[0]
    if l.op != "loc":
        return None
    v = I.read(st, *l.a)
    if fn["name"] == "first_mut":
        i, inside = INT(0), bnot(empty(v))
    else:
        if "Range" in (ctx.argtys[1] if len(ctx.argtys) > 1 else ""):
            return None
        i = V(I, st, args[1])
        inside = interp.binop("Lt", i, length(v))
    return [o for b, s in I.branch(st, inside) for o in R(s, some(loc(l.a[0], l.a[1] + (("idx", i),))) if b else NONE)]


def whole_range(ctx):
    """x[..] is x"""
    return len(ctx.argtys) > 1 and str(ctx.argtys[1]).endswith("RangeFull")


@model("IndexMut::index_mut")
def m_index_mut(I, st, args, ctx, fn):
    l = args[0]
    if whole_range(ctx):
        return R(st, l)
    if l.op != "loc" or (ctx.argtys[1] if len(ctx.argtys) > 1 else "") != "usize":
        return None
    s2 = st.fork()
    return R(st, loc(l.a[0], l.a[1] + (("idx", V(I, st, args[1])),))) + [panic_out(s2, "index", ctx)]


OPASSIGN = {n.lower() + "_assign": n for n in ("Add", "Sub", "Mul", "Div", "Rem", "BitXor", "BitAnd", "BitOr", "Shl", "Shr")}
PRIMITIVE = ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "bool")


@model("BitXorAssign::bitxor_assign", "BitAndAssign::bitand_assign", "BitOrAssign::bitor_assign")
def m_opassign(I, st, args, ctx, fn):
    l = args[0]
    if l.op != "loc" or len(ctx.argtys) < 2 or ctx.argtys[0].split()[-1].lstrip("&") not in PRIMITIVE:
        return None
    I.write(st, *l.a, interp.binop(OPASSIGN[fn["name"]], I.read(st, *l.a), V(I, st, args[1])))
    return R(st, UNIT)


@model("Index::index")
def m_index(I, st, args, ctx, fn):
    if whole_range(ctx):
        return R(st, args[0])
    m, k = V(I, st, args[0]), V(I, st, args[1])
    if "btree" in fname(fn) or "Map" in str(fn.get("rimpl_self", "")) or "BTreeMap" in str(fn.get("self_ty", "")):
        r = []
        for b, s in I.branch(st, has(m, k)):
            if b:
                r += R(s, get(m, k))
            else:
                r.append(panic_out(s, "index", ctx))
        return r
    s2 = st.fork()
    return R(st, T_("idx", m, k)) + [panic_out(s2, "index", ctx)]


@model("BTreeMap::insert", "BTreeSet::insert", "HashMap::insert", "HashSet::insert")
def m_insert(I, st, args, ctx, fn):
    l = args[0]
    if l.op != "loc":
        return None
    m = I.read(st, *l.a)
    k = args[1]
    if len(args) == 2:
        r = bnot(has(m, k))
        # a set is unchanged by inserting a present element
        I.write(st, *l.a, m if I.decide(st, has(m, k)) is True else ins(m, k))
        return R(st, r)
    r = opt(has(m, k), get(m, k))
    st.ev = (st.ev, Ev("insert", "insert", (m, k, args[2]), r, ctx.span, fn, ctx))
    I.write(st, *l.a, ins(m, k, args[2]))
    return R(st, r)


@model("BTreeMap::remove", "BTreeSet::remove", "HashMap::remove", "HashSet::remove", "BTreeSet::take", "BTreeMap::remove_entry")
def m_remove(I, st, args, ctx, fn):
    l = args[0]
    if l.op != "loc":
        return None
    m = I.read(st, *l.a)
    k = V(I, st, args[1])
    h = has(m, k)
    d = I.decide(st, h)
    I.write(st, *l.a, m if d is False else rem(m, k))
    isset = fname(fn).find("Set") >= 0
    if fn["name"] == "remove" and isset:
        return R(st, h)
    if fn["name"] == "take":
        return R(st, opt(h, k))
    if fn["name"] == "remove_entry":
        return R(st, opt(h, tup([k, get(m, k)])))
    return R(st, opt(h, get(m, k)))


@model("BTreeMap::is_empty", "BTreeSet::is_empty", "Vec::is_empty", "slice::is_empty", "HashMap::is_empty", "HashSet::is_empty", "VecDeque::is_empty", "TinyVec::is_empty", "str::is_empty", "String::is_empty")
def m_is_empty(I, st, args, ctx, fn):
    return R(st, empty(V(I, st, args[0])))


@model("BTreeMap::len", "BTreeSet::len", "Vec::len", "slice::len", "HashMap::len", "HashSet::len", "VecDeque::len", "str::len", "String::len", "TinyVec::len", "ExactSizeIterator::len")
def m_len(I, st, args, ctx, fn):
    return R(st, length(V(I, st, args[0])))


@model("BTreeMap::clear", "BTreeSet::clear", "Vec::clear")
def m_clear(I, st, args, ctx, fn):
    n = fname(fn)
    I.write(st, *args[0].a, EMPTY("map" if "Map" in n else "set" if "Set" in n else "vec"))
    return R(st, UNIT)


@model("Vec::push", "VecDeque::push_back", "TinyVec::push")
def m_push(I, st, args, ctx, fn):
    l = args[0]
    if l.op != "loc":
        return None
    I.write(st, *l.a, T_("push", I.read(st, *l.a), args[1]))
    return R(st, UNIT)


@model("Vec::pop", "TinyVec::pop", "VecDeque::pop_back")
def m_pop(I, st, args, ctx, fn):
    l = args[0]
    if l.op != "loc":
        return None
    v = I.read(st, *l.a)
    if v.op == "push":
        I.write(st, *l.a, v.a[0])
        return R(st, some(v.a[1]))
    if v.op == "empty":
        return R(st, NONE)
    r = []
    for b, s in I.branch(st, empty(v)):
        if b:
            r += R(s, NONE)
        else:
            I.write(s, *l.a, T_("popped", v))
            r += R(s, some(T_("last", v)))
    return r


@model("BTreeMap::pop_first", "BTreeMap::pop_last", "BTreeSet::pop_first", "BTreeSet::pop_last")
def m_pop_first(I, st, args, ctx, fn):
    l = args[0]
    if l.op != "loc":
        return None
    m = I.read(st, *l.a)
    if m.op in ("it", "itm", "itd"):
        return m_next(I, st, args, ctx, fn)
    k = T_("endkey", m, STR(fn["name"]))
    r = []
    for b, s in I.branch(st, empty(m)):
        if b:
            r += R(s, NONE)
            continue
        for h, s2 in I.branch(s, has(m, k)):
            if h:
                I.write(s2, *l.a, rem(m, k))
                r += R(s2, some(k if "Set" in fname(fn) else tup([k, get(m, k)])))
    return r


@model("VecDeque::pop_front", "VecDeque::remove")
def m_pop_front(I, st, args, ctx, fn):
    l = args[0]
    if l.op != "loc":
        return None
    v = I.read(st, *l.a)
    if v.op in ("it", "itm", "itd"):
        return m_next(I, st, args, ctx, fn) if fn["name"] == "pop_front" else None
    i = INT(0) if fn["name"] == "pop_front" else args[1]
    c = bnot(empty(v)) if fn["name"] == "pop_front" else interp.binop("Lt", i, length(v))
    r = []
    for b, s in I.branch(st, c):
        if b:
            I.write(s, *l.a, T_("vrem", v, i))
            s.ev = (s.ev, Ev("vremove", "vremove", (v, i), T_("idx", v, i), ctx.span, fn, ctx))
            r += R(s, some(T_("idx", v, i)))
        else:
            r += R(s, NONE)
    return r


@model("Vec::swap_remove", "Vec::remove", "VecDeque::remove_")
def m_vremove(I, st, args, ctx, fn):
    l = args[0]
    if l.op != "loc":
        return None
    v = I.read(st, *l.a)
    i = args[1]
    r = []
    for b, s in I.branch(st, interp.binop("Lt", i, length(v))):
        if b:
            I.write(s, *l.a, T_("vrem", v, i))
            s.ev = (s.ev, Ev("vremove", "vremove", (v, i), T_("idx", v, i), ctx.span, fn, ctx))
            r += R(s, T_("idx", v, i))
        else:
            r.append(panic_out(s, "Vec::" + fn["name"], ctx))
    return r


@model("slice::get", "Vec::get", "slice::first", "Vec::first", "slice::last", "Vec::last")
def m_sget(I, st, args, ctx, fn):
    v = V(I, st, args[0])
    if fn["name"] == "first":
        return R(st, opt(bnot(empty(v)), T_("idx", v, INT(0))))
    if fn["name"] == "last":
        if v.op == "push":
            return R(st, some(v.a[1]))
        return R(st, opt(bnot(empty(v)), T_("last", v)))
    i = args[1]
    return R(st, opt(interp.binop("Lt", i, length(v)), T_("idx", v, i)))


@model("BTreeMap::entry", "HashMap::entry")
def m_entry(I, st, args, ctx, fn):
    l = args[0]
    if l.op != "loc":
        return None
    return R(st, T_("entry", l, args[1]))


def _entry(I, st, e):
    """-> [(occupied, loc to value, st)]"""
    l, k = e.a
    m = I.read(st, *l.a)
    for b, s in I.branch(st, has(m, k)):
        yield b, loc(l.a[0], l.a[1] + (("at", k),)), s


@model("Entry::or_default", "Entry::or_insert", "Entry::or_insert_with", "Entry::or_insert_with_key")
def m_or(I, st, args, ctx, fn):
    e = args[0]
    if e.op != "entry":
        return None
    r = []
    n = fn["name"]
    for b, l, s in list(_entry(I, st, e)):
        if b:
            r += R(s, l)
        elif n == "or_default":
            I.write(s, *l.a, default_of(ctx.retty))
            r += R(s, l)
        elif n == "or_insert":
            I.write(s, *l.a, args[1])
            r += R(s, l)
        else:
            def fin(s, v, l=l):
                I.write(s, *l.a, v)
                return R(s, l)
            r += then(I.call_value(args[1], [] if n == "or_insert_with" else [e.a[1]], s, ctx), fin)
    return r


@model("Entry::and_modify")
def m_and_modify(I, st, args, ctx, fn):
    e = args[0]
    if e.op != "entry":
        return None
    r = []
    for b, l, s in list(_entry(I, st, e)):
        r += then(I.call_value(args[1], [l], s, ctx), lambda s, v: R(s, e)) if b else R(s, e)
    return r


@model("Entry::key", "VacantEntry::key", "OccupiedEntry::key")
def m_entry_key(I, st, args, ctx, fn):
    e = entry_of(V(I, st, args[0]))
    return R(st, e.a[1]) if e is not None else None


def entry_of(e):
    if e.op == "entry":
        return e
    if e.op == "fld" and e.a[0].op == "entry":
        return e.a[0]
    return None


@model("VacantEntry::insert", "OccupiedEntry::insert")
def m_vacant_insert(I, st, args, ctx, fn):
    e = entry_of(V(I, st, args[0]))
    if e is None:
        return None
    l, k = e.a
    m = I.read(st, *l.a)
    l2 = loc(l.a[0], l.a[1] + (("at", k),))
    old = get(m, k)
    I.write(st, *l.a, ins(m, k, args[1]))
    return R(st, l2 if "Vacant" in fname(fn) else old)


@model("OccupiedEntry::get", "OccupiedEntry::get_mut", "OccupiedEntry::into_mut", "OccupiedEntry::remove")
def m_occ(I, st, args, ctx, fn):
    e = entry_of(V(I, st, args[0]))
    if e is None:
        return None
    l, k = e.a
    m = I.read(st, *l.a)
    if fn["name"] == "get":
        return R(st, get(m, k))
    if fn["name"] == "remove":
        I.write(st, *l.a, rem(m, k))
        return R(st, get(m, k))
    return R(st, loc(l.a[0], l.a[1] + (("at", k),)))


# ---------------------------------------------------------------- iterators
def IT(base, stages=()):
    if base.op == "seq" and len(base.a) == 2 and base.a[0].op == "fold" and base.a[0].a[1].op == "empty" and base.a[1] in ("set", "map", "keys", "values"):
        # what was collected from something else: the something else, selected in the same way
        f, mode = base.a
        src = f.a[0]
        if src.op == "seq" and src.a[1] in ("set", "map", "keys", "values"):
            k = T_("ekey", src.a[0], 0)
            if all(v.op == "acc" or v.op == "ins" and v.a[0].op == "acc" and v.a[1] is k for _, v in f.a[2]) and any(v.op != "acc" for _, v in f.a[2]):
                return IT(seq(src.a[0], "set" if src.a[1] == "set" else "keys"), (("emit", (mode, f.a[2])),) + tuple(stages))
    return T_("it", base, tuple(stages))


interp.ITERATE = lambda v, k: IT(seq(v, k))


def seq(coll, mode, l=None):
    return T_("seq", coll, mode, l) if l is not None else T_("seq", coll, mode)


def kind_of(fn, ctx):
    s = fname(fn) + " " + str(fn.get("rdef", "")) + " " + str(fn.get("self_ty", "")) + " " + str(fn.get("rimpl_self", ""))
    if "btree::map" in s or "BTreeMap" in s or "HashMap" in s or "hash::map" in s:
        return "map"
    if "btree::set" in s or "BTreeSet" in s or "HashSet" in s:
        return "set"
    return "vec"


@model("BTreeMap::iter", "BTreeSet::iter", "slice::iter", "Vec::iter", "BTreeMap::keys", "BTreeMap::values", "BTreeMap::into_values", "BTreeMap::into_keys",
       "Vec::drain", "slice::into_iter", "BTreeMap::iter_mut", "BTreeMap::values_mut", "Vec::iter_mut", "slice::iter_mut", "Option::into_iter_", "VecDeque::iter", "BTreeMap::drain_")
def m_iter(I, st, args, ctx, fn):
    n = fn["name"]
    a = args[0]
    v = V(I, st, a)
    if v.op in ("it", "itm", "itd"):
        return R(st, v)
    k = kind_of(fn, ctx)
    mode = {"keys": "keys", "into_keys": "keys", "values": "values", "into_values": "values"}.get(n, k)
    if n in ("iter_mut", "values_mut"):
        if a.op != "loc":
            return None
        return R(st, IT(seq(v, {"iter_mut": k, "values_mut": "values"}[n], a)))
    if n == "drain":
        if a.op != "loc":
            return None
        I.write(st, *a.a, EMPTY("vec"))
    return R(st, IT(seq(v, mode)))


@model("IntoIterator::into_iter")
def m_into_iter(I, st, args, ctx, fn):
    a = args[0]
    if a.op in ("it", "itm", "itd"):
        return R(st, a)
    v = V(I, st, a)
    if v.op in ("it", "itm", "itd"):
        return R(st, a)  # &mut iterator
    ty = (ctx.argtys[0] if ctx.argtys else "")
    t0 = re.sub(r"^&('\S+ )?(mut )?", "", ty)
    head = t0.split("<")[0]
    if head.endswith("BTreeMap") or head.endswith("HashMap"):
        k = "map"
    elif head.endswith("BTreeSet") or head.endswith("HashSet"):
        k = "set"
    elif head.endswith("Vec") or t0.startswith("["):
        k = "vec"
    elif head.endswith("option::Option"):
        return R(st, IT(T_("optseq", v)))
    elif head.endswith("Range") or head.endswith("RangeInclusive"):
        return R(st, IT(T_("range", v)))
    else:
        return R(st, IT(T_("opaque", v)))
    if ty.startswith("&mut") or re.match(r"&'\S+ mut ", ty):
        if a.op == "loc":
            return R(st, IT(seq(v, k, a)))
    return R(st, IT(seq(v, k)))


@model("Option::iter")
def m_optiter(I, st, args, ctx, fn):
    return R(st, IT(T_("optseq", V(I, st, args[0]))))


@model("iter::once", "once::once")
def m_once(I, st, args, ctx, fn):
    return R(st, IT(T_("once", args[0])))


@model("iter::empty", "empty::empty")
def m_iempty(I, st, args, ctx, fn):
    return R(st, IT(T_("seq", EMPTY("vec"), "vec")))


STAGES = {"map", "filter", "filter_map", "cloned", "copied", "enumerate", "inspect", "peekable", "map_while", "take_while", "skip_while", "flat_map", "flatten"}


def as_it(I, st, a):
    v = V(I, st, a)
    if v.op in ("it", "itm"):
        return v
    # something iterable passed directly (e.g. to extend/chain)
    return None


def coll_it(I, st, a, ty):
    """IntoIterator on an argument"""
    v = as_it(I, st, a)
    if v is not None:
        return v
    v = V(I, st, a)
    t0 = re.sub(r"^&('\S+ )?(mut )?", "", ty or "")
    head = t0.split("<")[0]
    if v.op == "arr":
        return IT(seq(v, "vec"))
    k = "map" if head.endswith("Map") else "set" if head.endswith("Set") else "vec" if (head.endswith("Vec") or t0.startswith("[")) else None
    if head.endswith("option::Option"):
        return IT(T_("optseq", v))
    if k:
        return IT(seq(v, k))
    return IT(T_("opaque", v))


@model(*["Iterator::" + s for s in STAGES])
def m_stage(I, st, args, ctx, fn):
    it = as_it(I, st, args[0])
    if it is None:
        it = IT(T_("opaque", V(I, st, args[0])))
    n = fn["name"]
    if n in ("cloned", "copied", "peekable"):
        return R(st, it)
    if n == "flat_map" and len(fn.get("args") or ()) > 1 and fn["args"][1].startswith(("core::option::Option<", "core::option::IntoIter<")):
        # at most one element from each
        return R(st, T_(it.op, it.a[0], it.a[1] + (("filter_map", args[1]),), *it.a[2:]))
    if n == "flatten" and it.op == "it" and it.a[0].op == "optseq" and not it.a[1]:
        # of an optional collection
        m = re.match(r"(?:&\S* )?(?:mut )?core::option::(?:Iter|IterMut|IntoIter)<(?:'\S+ )?(.*)>$", ctx.argtys[0])
        c = m.group(1) if m else ""
        head = re.sub(r"^&('\S+ )?(mut )?", "", c).split("<")[0]
        k = "map" if head.endswith("Map") else "set" if head.endswith("Set") else "vec" if head.endswith("Vec") else None
        if k:
            return [Out("ret", s, IT(seq(x if b else EMPTY(k), k))) for b, x, s in split_opt(I, st, it.a[0].a[0])]
    if n in ("map_while", "take_while", "skip_while", "flat_map", "flatten"):
        return R(st, IT(T_("opaque", T_("app", n, (it,) + tuple(args[1:])))))
    st_ = (n, args[1] if len(args) > 1 else UNIT)
    return R(st, T_(it.op, it.a[0], it.a[1] + (st_,), *it.a[2:]))


@model("Iterator::chain", "Iterator::zip")
def m_chain(I, st, args, ctx, fn):
    a = as_it(I, st, args[0])
    if a is None:
        a = IT(T_("opaque", V(I, st, args[0])))
    b = coll_it(I, st, args[1], ctx.argtys[1] if len(ctx.argtys) > 1 else "")
    return R(st, IT(T_(fn["name"], a, b)))


@model("Iterator::rev", "DoubleEndedIterator::rev")
def m_rev(I, st, args, ctx, fn):
    a = as_it(I, st, args[0])
    if a is None:
        a = IT(T_("opaque", V(I, st, args[0])))
    return R(st, IT(T_("rev", a)))


@model("BTreeSet::difference", "BTreeSet::intersection", "BTreeSet::union", "HashSet::difference", "BTreeSet::symmetric_difference")
def m_difference(I, st, args, ctx, fn):
    a, b = V(I, st, args[0]), V(I, st, args[1])
    n = fn["name"]
    if n == "union":
        return R(st, IT(T_("chain", IT(seq(a, "set")), IT(seq(b, "set"), (("hasnot", a),)))))
    if n == "symmetric_difference":
        return R(st, IT(T_("chain", IT(seq(a, "set"), (("hasnot", b),)), IT(seq(b, "set"), (("hasnot", a),)))))
    return R(st, IT(seq(a, "set"), (("hasnot" if n == "difference" else "has", b),)))


@model("BitOr::bitor", "BitAnd::bitand", "Sub::sub")
def m_setops(I, st, args, ctx, fn):
    """operators of sets"""
    ty = re.sub(r"^&('\S+ )?(mut )?", "", ctx.argtys[0] if ctx.argtys else "")
    if ckind(ty) != "set":
        return None
    a, b = V(I, st, args[0]), V(I, st, args[1])
    n = fn["name"]
    it = IT(seq(b, "set")) if n.startswith("bitor") else IT(seq(a, "set"), (("hasnot" if n == "sub" else "has", b),))

    def step(s, l, e):
        add_to(I, s, l, "set", e)
        return [Out("next", s)]
    return acc_loop(I, st, it, ctx, a if n.startswith("bitor") else EMPTY("set"), step)


def base_elems(I, st, base, n, ctx):
    """generic elements of a base sequence: [(elem, st)]"""
    if isinstance(n, T):
        n = n.a[0]
    if base.op == "seq":
        coll, mode = base.a[0], base.a[1]
        l = base.a[2] if len(base.a) > 2 else None
        if mode == "vec":
            if coll.op == "arr" and len(coll.a[0]) == 0:
                return []
            if coll.op == "empty":
                return []
            # deforestation: elements of a vector built by one loop
            if coll.op == "fold" and coll.a[1].op == "empty" and l is None:
                r = []
                okk = True
                for c, v in coll.a[2]:
                    if v.op == "acc":
                        continue
                    if v.op == "push" and v.a[0].op == "acc":
                        s = st.fork()
                        good = True
                        for k, b in c:
                            if not I.assume(s, k, b):
                                good = False
                        if good:
                            r.append((v.a[1], s))
                    else:
                        okk = False
                if okk:
                    return r
            if coll.op == "arr":
                return [(x, st.fork()) for x in coll.a[0]]
            e = T_("elem", coll, n)
            if l is not None:
                root = ("el", coll.n, n)
                st.env[root] = e
                return [(loc(root), st)]
            return [(e, st)]
        if coll.op == "empty":
            return []
        k = T_("ekey", coll, n)
        h = has(coll, k)
        if mode == "values" or mode == "map" or mode == "keys" or mode == "set":
            f = T_("has", coll, k)
            st.facts[f] = True
            st.mem = st.mem | {f}
        if mode in ("set", "keys"):
            return [(k, st)]
        if l is not None:
            v = loc(l.a[0], l.a[1] + (("at", k),))
        else:
            v = get(coll, k)
        if mode == "values":
            return [(v, st)]
        return [(tup([k, v]), st)]
    if base.op == "chain":
        r = []
        for x in base.a:
            r += all_elems(I, st.fork(), x, n, ctx)
        return [(e, s) for k, e, s in r if k == "some"]
    if base.op == "zip":
        r = []
        for k, e, s in all_elems(I, st, base.a[0], n, ctx):
            for k2, e2, s2 in all_elems(I, s, base.a[1], n, ctx):
                if k == "some" and k2 == "some":
                    r.append((tup([e, e2]), s2))
        return r
    if base.op == "rev":
        return [(e, s) for k, e, s in all_elems(I, st, base.a[0], n, ctx) if k == "some"]
    if base.op == "once":
        return [(base.a[0], st)]
    if base.op == "optseq":
        return [(x, s) for b, x, s in split_opt(I, st, base.a[0]) if b]
    return [(T_("elem", base, n), st)]


def all_elems(I, st, it, n, ctx):
    """elements after the stages: [('some'|'skip'|'panic', value, st)]"""
    if isinstance(n, T):
        n = n.a[0]
    base, stages = it.a[0], it.a[1]
    cur = [("some", e, s) for e, s in base_elems(I, st, base, n, ctx)]
    for si, (kind, f) in enumerate(stages):
        nxt = []
        for k, e, s in cur:
            if k != "some":
                nxt.append((k, e, s))
                continue
            if kind in ("has", "hasnot"):
                for b, s2 in I.branch(s, has(f, e)):
                    nxt.append(("some" if b == (kind == "has") else "skip", e, s2))
                continue
            if kind == "emit":
                mode, alts = f
                k0 = T_("ekey", base.a[0], 0)
                for c, v in alts:
                    s2 = s.fork()
                    if not all(I.assume(s2, subst(a, {k0: e}), b) for a, b in c):
                        continue
                    if v.op == "acc":
                        nxt.append(("skip", e, s2))
                        continue
                    x = subst(v.a[2], {k0: e})
                    nxt.append(("some", e if mode in ("set", "keys") else x if mode == "values" else tup([e, x]), s2))
                continue
            if kind == "enumerate":
                nxt.append(("some", tup([T_("enumix", base, n), e]), s))
                continue
            outs = I.call_value(f, [e], s, ctx)
            for o in outs:
                if o.kind != "ret":
                    nxt.append(("panic", o, o.st))
                    continue
                if kind == "map":
                    nxt.append(("some", o.val, o.st))
                elif kind == "inspect":
                    nxt.append(("some", e, o.st))
                elif kind == "filter":
                    for b, s2 in I.branch(o.st, V(I, o.st, o.val)):
                        nxt.append(("some" if b else "skip", e, s2))
                elif kind == "filter_map":
                    w = V(I, o.st, o.val)
                    if w.op == "it" and w.a[0].op == "optseq" and not w.a[1]:
                        w = w.a[0].a[0]
                    for b, x, s2 in split_opt(I, o.st, w):
                        nxt.append(("some" if b else "skip", x, s2))
        cur = nxt
    return cur


@model("Iterator::next", "DoubleEndedIterator::next_back")
def m_next(I, st, args, ctx, fn):
    l = args[0]
    if l.op != "loc":
        return None
    it = I.read(st, *l.a)
    if it.op == "loc":
        l = it
        it = I.read(st, *l.a)
    if it.op == "itd":
        return R(st, NONE)
    if it.op not in ("it", "itm"):
        if "tracing" in fname(fn) or "tracing" in str(fn.get("rdef")):
            return R(st, NONE)
        # an opaque iterator
        if it.op in ("sym", "app", "fld", "post", "mu", "get", "undef", "elem"):
            return None
        return None
    pieces = literal_it(it)
    if pieces is not None:
        r, cur = [], [st.fork()]
        for i, p in enumerate(pieces):
            nxt = []
            for s in cur:
                for k, e, s2 in all_elems(I, s, p, INT(0), ctx):
                    if k == "panic":
                        r.append(e)
                    elif k == "some":
                        I.write(s2, *l.a, IT(T_("chain", *pieces[i + 1:]), ()))
                        r.append(Out("ret", s2, some(e)))
                    else:
                        nxt.append(s2)
            cur = nxt
        for s in cur:
            I.write(s, *l.a, T_("itd", it.a[0], it.a[1]))
            r.append(Out("ret", s, NONE))
        return r
    n = it.a[2] if it.op == "itm" else INT(itnum(st, it.a[0]))
    r = []
    inloop = ctx.loopframe[1] is not None
    s0 = st.fork()
    I.write(s0, *l.a, T_("itd", it.a[0], it.a[1]))
    dead = [c for c in colls(it.a[0]) if I.decide(st, empty(c)) is False] if it.op == "it" and not inloop else []
    # the first element of a whole collection: there is one unless the collection is empty
    whole = it.a[0].a[0] if it.op == "it" and not inloop and it.a[0].op == "seq" and not it.a[1] else None
    if not dead and (whole is None or I.assume(s0, empty(whole), True)):
        r.append(Out("ret", s0, NONE))
    s1 = st.fork()
    if whole is not None and not I.assume(s1, empty(whole), False):
        return r
    for k, e, s in all_elems(I, s1, it, n, ctx):
        if k == "panic":
            r.append(e)
            continue
        I.write(s, *l.a, T_("itm", it.a[0], it.a[1], n))
        if k == "some":
            r.append(Out("ret", s, some(e)))
        elif inloop:
            r.append(Out("back", s))
    return r


def drop_locals(st, fid):
    for k in [k for k in st.env if k[0] == fid]:
        del st.env[k]


CHAIN_DONE = T_("app", "chain done", ())


def consume(I, st, it, ctx, body, finish, part=None):
    """Run a synthetic loop over iterator `it`.
    body(st, elem) -> outs: kind 'next' to continue, 'stop' to leave with a value, or 'panic'.
    finish(st) -> value at exhaustion."""
    pieces = chain_pieces(it)
    if pieces is None and it.op == "it" and it.a[0].op == "optseq":
        pieces = [it]
    if pieces is not None:
        # with single elements between: one after the other
        res, cur = [], [st]
        for i, p in enumerate(pieces):
            nxt = []
            for s in cur:
                if p.a[0].op in ("once", "optseq"):
                    found = [(s, p)]
                    if p.a[0].op == "optseq":
                        found = []
                        for b, e, s2 in split_opt(I, s, p.a[0].a[0]):
                            if b:
                                found.append((s2, IT(T_("once", e), p.a[1])))
                            else:
                                nxt.append(s2)
                    for k, e, s2 in [y for s3, q in found for y in all_elems(I, s3, q, INT(0), ctx)]:
                        if k == "panic":
                            res.append(e)
                        elif k == "skip":
                            nxt.append(s2)
                        else:
                            for o in body(s2, e):
                                if o.kind == "next":
                                    nxt.append(o.st)
                                elif o.kind == "stop":
                                    res.append(Out("ret", o.st, o.val))
                                else:
                                    res.append(o)
                    continue
                for o in consume(I, s, p, ctx, body, lambda s: CHAIN_DONE, i):
                    if o.kind == "ret" and o.val is CHAIN_DONE:
                        nxt.append(o.st)
                    else:
                        res.append(o)
            cur = nxt
        res += [Out("ret", s, finish(s)) for s in cur]
        for o in res:
            if part is None and o.kind == "ret":
                drop_locals(o.st, ctx.fid + ("L",))
        return res
    root = (ctx.fid + ("L",), "it")
    st.env[root] = it

    def runner(s):
        cur = I.read(s, root, ())
        n = cur.a[2] if cur.op == "itm" else INT(itnum(s, cur.a[0]))
        outs = []
        s0 = s.fork()
        I.write(s0, root, (), T_("itd", cur.a[0], cur.a[1]))
        outs.append(Out("exit", s0, ("done", None)))
        for k, e, s2 in all_elems(I, s.fork(), cur, n, ctx):
            if k == "panic":
                outs.append(e)
                continue
            I.write(s2, root, (), T_("itm", cur.a[0], cur.a[1], n))
            if k == "skip":
                outs.append(Out("back", s2))
                continue
            for o in body(s2, e):
                if o.kind == "next":
                    outs.append(Out("back", o.st))
                elif o.kind == "stop":
                    outs.append(Out("exit", o.st, ("stop", o.val)))
                else:
                    outs.append(o)
        return outs

    res = []
    fid = ctx.fid + ("L",)
    for o in I.do_loop(runner, st, (fid, "syn") + (() if part is None else (part,)), lambda r: True, ctx.body, ctx.span):
        if o.kind == "exit":
            kind, v = o.val
            if kind == "done":
                v = finish(o.st)
            if part is None:
                drop_locals(o.st, fid)
            res.append(Out("ret", o.st, v))
        else:
            res.append(o)
    return res


def get_it(I, st, args, ctx):
    a = args[0]
    v = V(I, st, a)
    if v.op in ("it", "itm"):
        if a.op == "loc":
            I.write(st, *a.a, T_("itd", v.a[0], v.a[1]))
        if v.op == "itm":
            v = IT(T_("rest", v.a[0]), v.a[1]) if v.a[0].op != "rest" else IT(v.a[0], v.a[1])
        return v
    if v.op == "itd":
        return IT(T_("seq", EMPTY("vec"), "vec"))
    return IT(T_("opaque", v))


def acc_loop(I, st, it, ctx, init, step):
    """accumulate: step(st, acc_loc, elem) -> outs"""
    root = (ctx.fid + ("L",), "acc")
    st.env[root] = init
    l = loc(root)
    return consume(I, st, it, ctx, lambda s, e: step(s, l, e), lambda s: I.read(s, root, ()))


def add_to(I, s, l, kind, e):
    m = I.read(s, *l.a)
    if kind == "map":
        v = ins(m, fld(e, None, "0"), fld(e, None, "1"))
    elif kind == "set":
        v = ins(m, e)
    else:
        v = T_("push", m, e)
    I.write(s, *l.a, v)


def ckind(ty):
    h = ty.split("<")[0]
    if h.endswith("Map"):
        return "map"
    if h.endswith("Set"):
        return "set"
    if h.endswith("Vec") or h.endswith("VecDeque"):
        return "vec"
    if ty.startswith("alloc::boxed::Box<["):
        return "vec"
    if ty == "()":
        return "unit"
    return None


@model("Iterator::collect", "FromIterator::from_iter")
def m_collect(I, st, args, ctx, fn):
    it = get_it(I, st, args, ctx) if as_it(I, st, args[0]) is not None or fn["name"] == "collect" else coll_it(I, st, args[0], ctx.argtys[0])
    ty = ctx.retty
    wrap = None
    m = re.match(r"core::(result::Result|option::Option)<", ty)
    inner = ty
    if m:
        wrap = "ok" if "result" in m.group(1) else "some"
        inner = ty[m.end():]
    k = ckind(inner)
    if k is None:
        return R(st, T_("app", "collect", (it, STR(strip_idx(ty)))))
    if wrap is None and it.op == "it" and not it.a[1] and it.a[0].op == "seq" and len(it.a[0].a) == 2:
        # plain copy
        if it.a[0].a[1] == k:
            return R(st, it.a[0].a[0])

    def step(s, l, e):
        if wrap == "ok":
            r = []
            for isok, x, s2 in split_res(I, s, e):
                if isok:
                    if k != "unit":
                        add_to(I, s2, l, k, x)
                    r.append(Out("next", s2))
                else:
                    r.append(Out("stop", s2, err(x)))
            return r
        if wrap == "some":
            r = []
            for b, x, s2 in split_opt(I, s, e):
                if b:
                    if k != "unit":
                        add_to(I, s2, l, k, x)
                    r.append(Out("next", s2))
                else:
                    r.append(Out("stop", s2, NONE))
            return r
        add_to(I, s, l, k, e)
        return [Out("next", s)]

    root = (ctx.fid + ("L",), "acc")
    st.env[root] = EMPTY(k) if k != "unit" else UNIT
    l = loc(root)
    fin = lambda s: I.read(s, root, ())
    if wrap == "ok":
        return consume(I, st, it, ctx, lambda s, e: step(s, l, e), lambda s: ok(fin(s)))
    if wrap == "some":
        return consume(I, st, it, ctx, lambda s, e: step(s, l, e), lambda s: some(fin(s)))
    return consume(I, st, it, ctx, lambda s, e: step(s, l, e), fin)


@model("Extend::extend", "Vec::extend_from_slice", "BTreeMap::append", "BTreeSet::append", "Vec::append")
def m_extend(I, st, args, ctx, fn):
    l = args[0]
    if l.op != "loc":
        return None
    ty = ctx.argtys[0] if ctx.argtys else ""
    t0 = re.sub(r"^&('\S+ )?(mut )?", "", ty)
    k = ckind(t0)
    if k is None:
        return None
    it = coll_it(I, st, args[1], ctx.argtys[1] if len(ctx.argtys) > 1 else "")
    if fn["name"] == "append":
        src = args[1]
        it = IT(seq(V(I, st, src), k))
        if src.op == "loc":
            I.write(st, *src.a, EMPTY(k))

    def step(s, e):
        add_to(I, s, l, k, e)
        return [Out("next", s)]

    return consume(I, st, it, ctx, step, lambda s: UNIT)


@model("Iterator::all", "Iterator::any")
def m_all(I, st, args, ctx, fn):
    it = get_it(I, st, args, ctx)
    want = fn["name"] == "all"

    def step(s, e):
        r = []
        for o in I.call_value(args[1], [e], s, ctx):
            if o.kind != "ret":
                r.append(o)
                continue
            for b, s2 in I.branch(o.st, V(I, o.st, o.val)):
                r.append(Out("next", s2) if b == want else Out("stop", s2, BOOL(not want)))
        return r

    return consume(I, st, it, ctx, step, lambda s: BOOL(want))


@model("BTreeSet::is_subset", "BTreeSet::is_superset", "BTreeSet::is_disjoint", "HashSet::is_subset")
def m_subset(I, st, args, ctx, fn):
    a, b = V(I, st, args[0]), V(I, st, args[1])
    if fn["name"] == "is_superset":
        a, b = b, a
    want = fn["name"] != "is_disjoint"

    def step(s, e):
        return [Out("next", s2) if v == want else Out("stop", s2, FALSE) for v, s2 in I.branch(s, has(b, e))]

    return consume(I, st, IT(seq(a, "set")), ctx, step, lambda s: TRUE)


@model("Iterator::for_each", "Iterator::try_for_each")
def m_for_each(I, st, args, ctx, fn):
    it = get_it(I, st, args, ctx)
    tr = fn["name"] == "try_for_each"
    isres = ctx.retty.startswith("core::result")

    def step(s, e):
        r = []
        for o in I.call_value(args[1], [e], s, ctx):
            if o.kind != "ret":
                r.append(o)
            elif not tr:
                r.append(Out("next", o.st))
            elif isres:
                for b, x, s2 in split_res(I, o.st, o.val):
                    r.append(Out("next", s2) if b else Out("stop", s2, err(x)))
            else:
                for b, x, s2 in split_opt(I, o.st, o.val):
                    r.append(Out("next", s2) if b else Out("stop", s2, NONE))
        return r

    return consume(I, st, it, ctx, step, lambda s: UNIT if not tr else (ok(UNIT) if isres else some(UNIT)))


@model("Iterator::find", "Iterator::find_map", "Iterator::position")
def m_find(I, st, args, ctx, fn):
    it = get_it(I, st, args, ctx)
    n = fn["name"]

    def step(s, e):
        r = []
        for o in I.call_value(args[1], [e], s, ctx):
            if o.kind != "ret":
                r.append(o)
            elif n == "find_map":
                for b, x, s2 in split_opt(I, o.st, o.val):
                    r.append(Out("stop", s2, some(x)) if b else Out("next", s2))
            else:
                for b, s2 in I.branch(o.st, o.val):
                    r.append((Out("stop", s2, some(e)) if n == "find" else Out("stop", s2, some(T_("posn", it, e)))) if b else Out("next", s2))
        return r

    return consume(I, st, it, ctx, step, lambda s: NONE)


@model("Iterator::fold", "Iterator::try_fold")
def m_fold(I, st, args, ctx, fn):
    it = get_it(I, st, args, ctx)
    tr = fn["name"] == "try_fold"
    isres = ctx.retty.startswith("core::result")

    def step(s, l, e):
        r = []
        acc = I.read(s, *l.a)
        for o in I.call_value(args[2], [acc, e], s, ctx):
            if o.kind != "ret":
                r.append(o)
            elif not tr:
                I.write(o.st, *l.a, o.val)
                r.append(Out("next", o.st))
            else:
                sp = split_res(I, o.st, o.val) if isres else split_opt(I, o.st, o.val)
                for b, x, s2 in sp:
                    if b:
                        I.write(s2, *l.a, x)
                        r.append(Out("next", s2))
                    else:
                        r.append(Out("stop", s2, err(x) if isres else NONE))
        return r

    root = (ctx.fid + ("L",), "acc")
    st.env[root] = args[1]
    l = loc(root)
    fin = (lambda s: I.read(s, root, ())) if not tr else (lambda s: (ok if isres else some)(I.read(s, root, ())))
    return consume(I, st, it, ctx, lambda s, e: step(s, l, e), fin)


@model("Iterator::unzip", "Iterator::partition")
def m_unzip(I, st, args, ctx, fn):
    it = get_it(I, st, args, ctx)
    m = re.match(r"\((.*)\)$", ctx.retty)
    k1 = ckind(m.group(1)) if m else "vec"
    # second component's kind
    ty = m.group(1) if m else ""
    d = 0
    cut = None
    for i, c in enumerate(ty):
        if c in "<([":
            d += 1
        elif c in ">)]":
            d -= 1
        elif c == "," and d == 0:
            cut = i
            break
    k2 = ckind(ty[cut + 1:].strip()) if cut else k1
    root = (ctx.fid + ("L",), "acc")
    st.env[root] = tup([EMPTY(k1 or "vec"), EMPTY(k2 or "vec")])

    def step(s, e):
        l1, l2 = loc(root, (("f", None, "0"),)), loc(root, (("f", None, "1"),))
        if fn["name"] == "unzip":
            add_to(I, s, l1, k1, fld(e, None, "0"))
            add_to(I, s, l2, k2, fld(e, None, "1"))
            return [Out("next", s)]
        r = []
        for o in I.call_value(args[1], [e], s, ctx):
            if o.kind != "ret":
                r.append(o)
                continue
            for b, s2 in I.branch(o.st, o.val):
                add_to(I, s2, l1 if b else l2, k1 if b else k2, e)
                r.append(Out("next", s2))
        return r

    return consume(I, st, it, ctx, step, lambda s: I.read(s, root, ()))


@model("Iterator::count")
def m_count(I, st, args, ctx, fn):
    it = get_it(I, st, args, ctx)
    # the number of the elements collected
    root = (ctx.fid + ("L",), "acc")
    st.env[root] = EMPTY("vec")
    l = loc(root)
    return consume(I, st, it, ctx, lambda s, e: (add_to(I, s, l, "vec", e), [Out("next", s)])[1], lambda s: length(I.read(s, root, ())))


@model("BTreeMap::retain", "BTreeSet::retain", "Vec::retain")
def m_retain(I, st, args, ctx, fn):
    l = args[0]
    if l.op != "loc":
        return None
    m = I.read(st, *l.a)
    k = kind_of(fn, ctx)
    root = (ctx.fid + ("L",), "acc")
    st.env[root] = EMPTY(k)
    acc = loc(root)

    def step(s, e):
        r = []
        a = [fld(e, None, "0"), fld(e, None, "1")] if k == "map" else [e]
        for o in I.call_value(args[1], a, s, ctx):
            if o.kind != "ret":
                r.append(o)
                continue
            for b, s2 in I.branch(o.st, o.val):
                if b:
                    add_to(I, s2, acc, k, e)
                r.append(Out("next", s2))
        return r

    def fin(s):
        I.write(s, *l.a, I.read(s, root, ()))
        return UNIT

    return consume(I, st, IT(seq(m, k)), ctx, step, fin)


# ---------------------------------------------------------------- functions as values
@model("Fn::call", "FnMut::call_mut", "FnOnce::call_once")
def m_call(I, st, args, ctx, fn):
    f = args[0]
    a = V(I, st, args[1])
    if a.op == "tup":
        return I.call_value(f, list(a.a[0]), st, ctx)
    return None


# ---------------------------------------------------------------- smart pointers
@model("Arc::into_inner", "Rc::into_inner")
def m_arc_inner(I, st, args, ctx, fn):
    v = args[0]
    st.ev = (st.ev, Ev("call", "Arc::into_inner", (v,), None, ctx.span, fn, ((), ctx)))
    return R(st, T_("opt", T_("app", "arc_unique", (v,)), v))


# ---------------------------------------------------------------- digests
@model("Digest::new", "Digest::new_with_prefix", "Digest::chain_update", "Digest::update", "Digest::finalize", "Update::update", "Update::chain", "Digest::digest", "FixedOutput::finalize_fixed")
def m_digest(I, st, args, ctx, fn):
    n = fn["name"]
    if n == "new":
        return R(st, T_("hash", ()))
    if n == "new_with_prefix":
        return R(st, T_("hash", (V(I, st, args[0]),)))
    if n == "digest":
        return R(st, T_("digest", T_("hash", (V(I, st, args[0]),))))
    if n in ("chain_update", "chain"):
        h = V(I, st, args[0])
        if h.op == "hash":
            return R(st, T_("hash", h.a[0] + (V(I, st, args[1]),)))
        return R(st, T_("hashup", h, V(I, st, args[1])))
    if n == "update":
        l = args[0]
        if l.op != "loc":
            return None
        h = I.read(st, *l.a)
        if h.op == "hash":
            I.write(st, *l.a, T_("hash", h.a[0] + (V(I, st, args[1]),)))
        else:
            I.write(st, *l.a, T_("hashup", h, V(I, st, args[1])))
        return R(st, UNIT)
    return R(st, T_("digest", V(I, st, args[0])))


# ---------------------------------------------------------------- tracing
@model("Interest::is_never")
def m_tr1(I, st, args, ctx, fn):
    return R(st, TRUE)


@model("__macro_support::__is_enabled", "__is_enabled")
def m_tr2(I, st, args, ctx, fn):
    return R(st, FALSE)


@model("LevelFilter::current", "DefaultCallsite::interest", "Callsite::metadata", "Metadata::fields", "FieldSet::iter", "FieldSet::value_set", "Event::dispatch", "Level::clone_")
def m_tr3(I, st, args, ctx, fn):
    return R(st, T_("tracing"))


# ---------------------------------------------------------------- futures
POLL = "core::task::poll::Poll"


@model("future::get_context")
def m_getctx(I, st, args, ctx, fn):
    return R(st, sym("cx"))


@model("Future::poll")
def m_poll(I, st, args, ctx, fn):
    a = args[0]
    v = V(I, st, a)
    if v.op == "adt" and v.a[0].endswith("Pin"):
        a = v.a[3][0]
        v = V(I, st, a)
    if v.op == "cor":
        def fin(s, x):
            return R(s, adt(POLL, "Ready", ("0",), (x,)))
        if v.a[0] in I.bodies:
            outs = I.inline(v.a[0], [a if a.op == "loc" else v, sym("cx")], st, ctx.fid + ("co",), ctx.span)
            return then(outs, fin)
        return I.opaque_call("await", [v], st, ctx, fn)
    if v.op == "pollfn":
        return poll_fn(I, st, v, ctx)
    x = T_("app", "await", (I.snapshot(st, v),))
    st.ev = (st.ev, Ev("await", "await", (I.snapshot(st, v),), x, ctx.span, fn, ((), ctx)))
    return R(st, adt(POLL, "Ready", ("0",), (x,)))


@model("poll_fn::poll_fn")
def m_poll_fn(I, st, args, ctx, fn):
    return R(st, T_("pollfn", args[0]))


def poll_fn(I, st, v, ctx):
    """poll_fn(f): f is polled until it is ready; interpret one call, dropping
    the paths on which it is still pending"""
    f = v.a[0]
    if f.op == "clo":
        # what it has captured: in `select!`, the set of the disabled branches and the futures
        caps = tuple(I.snapshot(st, c) for c in f.a[1] if isinstance(c, T))
        st = st.fork()
        st.ev = (st.ev, Ev("poll", "poll_fn", caps, None, ctx.span, None, ((), ctx)))
    outs = I.call_value(f, [sym("cx")], st, ctx)
    r = []
    for o in outs:
        if o.kind != "ret":
            r.append(o)
            continue
        x = o.val
        if x.op == "adt" and x.a[1] == "Pending":
            continue
        r.append(o)
    return r


WIDTH = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64}


@model("TryFrom::try_from", "TryInto::try_into")
def m_tryfrom(I, st, args, ctx, fn):
    a = (fn.get("args") or ["", ""])
    dst, src = (a[0], a[1]) if fn["name"] == "try_from" else (a[1], a[0])
    if dst in WIDTH and src in WIDTH and WIDTH[dst] >= WIDTH[src]:
        return R(st, ok(T_("cast", V(I, st, args[0]), dst)))
    return None


@model("blocking::spawn_blocking", "spawn::spawn")
def m_spawn(I, st, args, ctx, fn):
    """a task: its paths are recorded with the event, its handle is opaque"""
    v = V(I, st, args[0])
    snap = I.snapshot(st, v)
    s2 = st.fork()
    s2.ev = None
    if v.op == "clo":
        outs = I.call_value(v, [], s2, ctx)
    elif v.op == "cor":
        outs = I.run_cor(v, s2, ctx.fid + ("sp",), ctx.span)
    else:
        return None
    ret = T_("app", fname_of(fn), (snap,))
    st.ev = (st.ev, interp.Ev("spawn", fname_of(fn), (snap,), ret, ctx.span, fn, (outs, dict(st.facts), ctx)))
    return R(st, ret)


def fname_of(fn):
    return interp.fname(fn)


@model("bounded::channel", "unbounded::channel")
def m_channel(I, st, args, ctx, fn):
    """each call creates another channel"""
    t = T_("app", fname_of(fn), tuple(I.snapshot(st, a) for a in args) + (STR("%s@%s" % (ctx.span, ctx.fid)),))
    st.ev = (st.ev, interp.Ev("call", fname_of(fn), tuple(t.a[1]), t, ctx.span, fn, ((), ctx)))
    return R(st, t)
