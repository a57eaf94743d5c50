"""Hash-consed terms: the abstract values of the interpreter."""
_tab = {}


class T:
    __slots__ = ("op", "a", "n", "c", "__weakref__")

    def __repr__(self):
        return pretty(self)


def T_(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.n = len(_tab)
        t.c = None
        _tab[k] = t
    return t


def sym(n):
    return T_("sym", n)


def INT(v):
    return T_("int", v)


def STR(s):
    return T_("str", s)


TRUE = T_("bool", True)
FALSE = T_("bool", False)
UNIT = T_("tup", ())
MOVED = T_("moved")
FMT = T_("fmt")


def BOOL(b):
    return TRUE if b else FALSE


def tup(vals):
    return T_("tup", tuple(vals))


# small structures with a field no other structure has: that field -> (path, all fields)
LAYOUT = {}


# fields which only gather fields of the structure they are in: name -> (path of their type, its fields); they are seen through
GROUPS = {}


def layouts(adts, groups=None):
    own, out = {}, {}
    GROUPS.clear()
    GROUPS.update({k: (p, tuple(n)) for k, (p, n) in (groups or {}).items()})
    inner = {p for p, _ in GROUPS.values()}
    for a in adts:
        if a["path"] in inner:
            continue
        fs = [f[0] for v in a["variants"] for f in v["fields"]]
        for f in fs:
            own.setdefault(f, []).append((a["path"], a["kind"], fs))
    for f, o in own.items():
        if len(o) == 1 and o[0][1] == "Struct" and 2 <= len(o[0][2]) <= 4 and not f.isdigit():
            out[f] = (o[0][0], tuple(o[0][2]))
    LAYOUT.clear()
    LAYOUT.update(out)


def adt(path, variant, names, vals):
    names, vals = tuple(names), tuple(vals)
    if GROUPS and any(n in GROUPS for n in names):
        ns, vs = [], []
        for n, v in zip(names, vals):
            inner = GROUPS[n][1] if n in GROUPS else ()
            ns += inner or (n,)
            vs += [fld(v, None, i) for i in inner] if inner else (v,)
        names, vals = tuple(ns), tuple(vs)
    if len(names) > 1 and vals[0].op == "fld" and any(LAYOUT.get(n, ("",))[0] == path for n in names):
        b = vals[0].a[0]
        if all(v.op == "fld" and v.a[0] is b and v.a[1] is None and v.a[2] == n for n, v in zip(names, vals)):
            return b
    return T_("adt", path, variant, names, vals)


OPTION = "core::option::Option"
RESULT = "core::result::Result"
NONE = adt(OPTION, "None", (), ())


def some(v):
    return adt(OPTION, "Some", ("0",), (v,))


def ok(v):
    return adt(RESULT, "Ok", ("0",), (v,))


def err(v):
    return adt(RESULT, "Err", ("0",), (v,))


def app(name, *args):
    return T_("app", name, args)


def app_args(t):
    return t.a[1]


def loc(root, path=()):
    if GROUPS and len(path) > 1:
        path = tuple(e for i, e in enumerate(path) if i == len(path) - 1 or e[0] != "f" or e[2] not in GROUPS)
    return T_("loc", root, path)


def opt(cond, val):
    if cond is TRUE:
        return some(val)
    if cond is FALSE:
        return NONE
    return T_("opt", cond, val)


def bnot(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.a[0]
    return T_("not", t)


def band(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is b:
        return a
    if a.n > b.n:
        a, b = b, a
    return T_("and", a, b)


def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))


CONST_OPS = ("int", "bool", "str", "bytes")


def eq(a, b):
    if a is b:
        return TRUE
    if a.op in CONST_OPS and b.op in CONST_OPS:
        if a.op == "bool":
            return BOOL(a is b)
        return FALSE
    if a.op == "bool" or b.op == "bool":
        if a.op == "bool":
            a, b = b, a
        return a if b is TRUE else bnot(a)
    if a.op == "adt" and b.op == "adt" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        r = TRUE
        for x, y in zip(a.a[3], b.a[3]):
            r = band(r, eq(x, y))
        return r
    if a.op == "tup" and b.op == "tup" and len(a.a[0]) == len(b.a[0]):
        r = TRUE
        for x, y in zip(a.a[0], b.a[0]):
            r = band(r, eq(x, y))
        return r
    if a.op == "app" and b.op == "app" and a.a[0] == "core::any::TypeId::of" == b.a[0] and a.a[1] and b.a[1]:
        # different type constructors (not parameters or projections) are different types
        h = [str(x.a[1][-1].a[0])[5:].split("<")[0] for x in (a, b)]
        if h[0] != h[1] and all("::" in y for y in h):
            return FALSE
    # option of unknown presence against a literal option
    if b.op == "opt" and a.op == "adt":
        a, b = b, a
    if a.op == "opt" and b.op == "adt" and b.a[0] == OPTION:
        if b.a[1] == "None":
            return bnot(a.a[0])
        return band(a.a[0], eq(a.a[1], b.a[3][0]))
    if b.op == "adt" and b.a[0] == OPTION and b.a[1] == "None":
        return isvar(a, "None")
    if a.op == "adt" and a.a[0] == OPTION and a.a[1] == "None":
        return isvar(b, "None")
    # enum literal without fields
    if b.op == "adt" and not b.a[3] and b.a[0].split("::")[-1] != b.a[1]:
        return isvar(a, b.a[1])
    if a.op == "adt" and not a.a[3] and a.a[0].split("::")[-1] != a.a[1]:
        return isvar(b, a.a[1])
    # len(x) == 0
    for x, y in ((a, b), (b, a)):
        if x.op == "len" and y.op == "int" and y.a[0] == 0:
            return empty(x.a[0])
    if a.n > b.n:
        a, b = b, a
    return T_("eq", a, b)


def isvar(x, v):
    """x is of variant v"""
    if x.op == "adt":
        return BOOL(x.a[1] == v)
    if x.op == "opt":
        return x.a[0] if v == "Some" else bnot(x.a[0])
    if x.op == "with":
        return isvar(x.a[0], v)
    # binary enums: one atom only
    if v == "None":
        return bnot(T_("isvar", x, "Some"))
    if v == "Err":
        return bnot(T_("isvar", x, "Ok"))
    return T_("isvar", x, v)


def fld(base, variant, name):
    if name in GROUPS:
        p, ns = GROUPS[name]
        return adt(p, p.split("::")[-1], ns, [fld(base, variant, n) for n in ns])
    op = base.op
    if op == "adt":
        names = base.a[2]
        if name in names:
            return base.a[3][names.index(name)]
        return T_("fld", base, variant, name)
    if (op == "tup" or op == "arr") and name.isdigit():
        i = int(name)
        if i < len(base.a[0]):
            return base.a[0][i]
    if op in ("clo", "cor") and name.isdigit():
        i = int(name)
        if i < len(base.a[1]):
            return base.a[1][i]
    if op == "opt":
        return base.a[1]
    if op == "with":
        for (v, n, x) in base.a[1]:
            if n == name and v == variant:
                return x
        return fld(base.a[0], variant, name)
    return T_("fld", base, variant, name)


def setfld(base, variant, name, val):
    if name in GROUPS:
        for n in GROUPS[name][1]:
            base = setfld(base, variant, n, val if val is MOVED else fld(val, None, n))
        return base
    op = base.op
    if op == "adt":
        names = base.a[2]
        vals = list(base.a[3])
        if name in names:
            vals[names.index(name)] = val
            return adt(base.a[0], base.a[1], names, vals)
    if op in ("tup", "arr") and name.isdigit() and int(name) < len(base.a[0]):
        vals = list(base.a[0])
        vals[int(name)] = val
        return T_(op, tuple(vals))
    if op in ("clo", "cor"):
        vals = list(base.a[1])
        i = int(name)
        while len(vals) <= i:
            vals.append(MOVED)
        vals[i] = val
        return T_(op, base.a[0], tuple(vals))
    if op == "opt":
        return T_("opt", base.a[0], val)
    lay = LAYOUT.get(name) if variant is None else None
    if lay is not None and fld(base, variant, name) is not val:
        return adt(lay[0], lay[0].split("::")[-1], lay[1], [val if n == name else fld(base, None, n) for n in lay[1]])
    ups = []
    b = base
    if op == "with":
        b = base.a[0]
        ups = [u for u in base.a[1] if not (u[0] == variant and u[1] == name)]
    if fld(b, variant, name) is not val:
        ups.append((variant, name, val))
    if not ups:
        return b
    ups.sort(key=lambda u: (str(u[0]), u[1]))
    return T_("with", b, tuple(ups))


# ---- collections -------------------------------------------------------
def EMPTY(kind):
    return T_("empty", kind)


MUDOM = {}  # mu term -> (value at loop entry, base sequence term whose keys are visited once)


def at_init(m, k):
    """the state of a collection during a loop, asked for the key of the current iteration: if every iteration only
    touches its own key, that entry is still the initial one"""
    f = m.a[0]
    if f.op != "fold" or f.a[0].op != "seq" or f.a[0].a[1] not in ("set", "map", "keys", "smap"):
        return None
    if k.op != "ekey" or k.a[0] is not f.a[0].a[0]:
        return None
    for _, v in f.a[2]:
        while v.op in ("ins", "rem"):
            if v.a[1] is not k:
                return None
            v = v.a[0]
        if v.op != "acc":
            return None
    return f.a[1]


def has(m, k):
    if m.op == "empty":
        return FALSE
    if m.op == "at":
        i = at_init(m, k)
        if i is not None:
            return has(i, k)
    if m.op == "ins":
        if m.a[1] is k:
            return TRUE
        e = eq(m.a[1], k)
        if e is FALSE:
            return has(m.a[0], k)
        if e is TRUE:
            return TRUE
    if m.op == "rem":
        if m.a[1] is k:
            return FALSE
        if eq(m.a[1], k) is FALSE:
            return has(m.a[0], k)
    if m.op == "mu" and m in MUDOM and k.op == "ekey":
        return has(MUDOM[m], k)
    if k.op == "ekey" and k.a[0] is m:
        return TRUE
    if m.op == "fold" and m.a[1].op == "empty":
        r = _fold_has(m, k)
        if r is not None:
            return r
    return T_("has", m, k)


def _fold_has(m, k):
    """has(collect of (key -> ..) over all entries of M, k) = has(M, k)"""
    base = m.a[0]
    parts = m.a[2]
    if base.op != "seq":
        return None
    # of a selection: in the whole, and selected
    put = [(c, v) for c, v in parts if v.op != "acc"]
    e = elem_key(base)
    if len(put) != 1 or len(parts) == 1 and parts[0][0] or not all(isinstance(f, T) for f, _ in put[0][0]):
        return None
    c, v = put[0]
    if v.op == "ins" and v.a[0].op == "acc" and v.a[1] is e:
        r = has(base.a[0], k)
        for f, b in c:
            if not contains(f, e):
                return None
            f = subst(f, {e: k})
            r = band(r, f if b else bnot(f))
        return r
    return None


def elem_key(base):
    """the generic key/element of a base sequence at nesting 0"""
    return T_("ekey", base.a[0], 0)


def get(m, k):
    if m.op == "at":
        i = at_init(m, k)
        if i is not None:
            return get(i, k)
    if m.op == "ins":
        if m.a[1] is k or eq(m.a[1], k) is TRUE:
            return m.a[2]
        if eq(m.a[1], k) is FALSE:
            return get(m.a[0], k)
    if m.op == "rem" and eq(m.a[1], k) is FALSE:
        return get(m.a[0], k)
    if m.op == "mu" and m in MUDOM and k.op == "ekey":
        return get(MUDOM[m], k)
    if m.op == "fold" and m.a[1].op == "empty":
        base = m.a[0]
        parts = m.a[2]
        if base.op == "seq" and len(parts) == 1 and not parts[0][0]:
            v = parts[0][1]
            if v.op == "ins" and v.a[0].op == "acc" and v.a[1] is elem_key(base):
                return subst(v.a[2], {elem_key(base): k})
    return T_("get", m, k)


def ins(m, k, v=None):
    v = UNIT if v is None else v
    if m.op == "ins" and m.a[1] is k:
        return ins(m.a[0], k, v)
    if m.op == "rem" and m.a[1] is k:
        return T_("ins", m.a[0], k, v)
    return T_("ins", m, k, v)


def rem(m, k):
    if m.op == "empty":
        return m
    if m.op == "ins":
        if m.a[1] is k:
            return rem(m.a[0], k)
        if eq(m.a[1], k) is FALSE:
            return ins(rem(m.a[0], k), m.a[1], m.a[2])
    if m.op == "rem" and m.a[1] is k:
        return m
    return T_("rem", m, k)


def empty(m):
    if m.op == "empty":
        return TRUE
    if m.op in ("ins", "push"):
        return FALSE
    if m.op == "arr":
        return BOOL(len(m.a[0]) == 0)
    if m.op == "fold" and m.a[1].op == "empty" and m.a[0].op == "seq":
        if all(not c and v.op in ("ins", "push") for c, v in m.a[2]):
            return empty(m.a[0].a[0])
    if m.op == "setidx":
        return empty(m.a[0])
    return T_("isempty", m)


def length(m):
    if m.op == "arr":
        return INT(len(m.a[0]))
    if m.op == "empty":
        return INT(0)
    if m.op == "setidx":
        return length(m.a[0])
    return T_("len", m)


def contains(t, sub, _memo=None):
    return any(x is sub for x in subterms(t))


def _children(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _tchildren(x)


def _tchildren(x):
    for y in x:
        if isinstance(y, T):
            yield y
        elif isinstance(y, tuple):
            yield from _tchildren(y)


def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        c = x.c
        if c is None:
            c = x.c = tuple(_children(x))
        st.extend(c)


def _map_tuple(x, f):
    return tuple(f(y) if isinstance(y, T) else _map_tuple(y, f) if isinstance(y, tuple) else y for y in x)


def rebuild(t, a):
    """Reconstruct with normalization."""
    op = t.op
    if op == "eq":
        return eq(*a)
    if op == "not":
        return bnot(*a)
    if op == "and":
        return band(*a)
    if op == "has":
        return has(*a)
    if op == "get":
        return get(*a)
    if op == "ins":
        return ins(*a)
    if op == "rem":
        return rem(*a)
    if op == "isempty":
        return empty(*a)
    if op == "fld":
        return fld(*a)
    if op == "isvar":
        return isvar(*a)
    if op == "opt":
        return opt(*a)
    if op == "len":
        return length(*a)
    return T_(op, *a)


def subst(t, m, _memo=None):
    memo = {} if _memo is None else _memo

    def go(x):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is None:
            a = _map_tuple(x.a, go)
            r = x if a == x.a else rebuild(x, a)
            memo[x] = r
        return r

    return go(t)


# ---- printing -----------------------------------------------------------
def short(path):
    return path.split("::")[-1] if "<" not in path else path


def pretty(t, d=0):
    if d > 14:
        return "..."
    op = t.op

    def p(x):
        return pretty(x, d + 1) if isinstance(x, T) else ("(" + ", ".join(p(y) for y in x) + ")" if isinstance(x, tuple) else str(x))

    if op == "sym":
        return str(t.a[0])
    if op in ("int", "bool", "str"):
        return repr(t.a[0])
    if op == "tup":
        return "(" + ", ".join(p(x) for x in t.a[0]) + ")"
    if op == "arr":
        return "[" + ", ".join(p(x) for x in t.a[0]) + "]"
    if op == "adt":
        n = short(t.a[0])
        if n != t.a[1]:
            n = t.a[1] if n in ("Option", "Result") else n + "::" + t.a[1]
        if not t.a[3]:
            return n
        if t.a[2][0] == "0":
            return n + "(" + ", ".join(p(x) for x in t.a[3]) + ")"
        return n + "{" + ", ".join("%s: %s" % (k, p(v)) for k, v in zip(t.a[2], t.a[3])) + "}"
    if op == "fld":
        return "%s.%s%s" % (p(t.a[0]), (t.a[1] + "!") if t.a[1] else "", t.a[2])
    if op == "app":
        return "%s(%s)" % (t.a[0], ", ".join(p(x) for x in t.a[1]))
    if op == "eq":
        return "(%s == %s)" % (p(t.a[0]), p(t.a[1]))
    if op == "not":
        return "!" + p(t.a[0])
    if op in ("clo", "cor"):
        return "%s<%s>[%s]" % (op, str(t.a[0]).split("#")[0][-40:], ", ".join(p(x) for x in t.a[1]))
    if op == "with":
        return "%s{%s}" % (p(t.a[0]), ", ".join("%s:=%s" % (u[1], p(u[2])) for u in t.a[1]))
    if op == "isvar":
        return "%s is %s" % (p(t.a[0]), t.a[1])
    if op == "fn":
        return "fn<%s>" % t.a[0]
    if op == "loc":
        return "&mut<%s>" % (t.a[0],) + "".join("." + (str(e[2]) if e[0] == "f" else p(e[1])) for e in t.a[1])
    return "%s(%s)" % (op, ", ".join(p(x) for x in t.a))
