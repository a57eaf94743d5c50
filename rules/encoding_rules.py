"""C41: encodings, equality and copies of the library's types are faithful.

serde's derive macros, hand-written impls and container attributes (skip, into, from, ...) all end in `serialize` and in the
`visit_*` functions of a visitor; these are analysed as they are after expansion.  Equality and copies of a type are the
compiler's own if derived; otherwise the hand-written function is analysed."""
import re
from lib import *
from interp import Interp
from session_rules import *
from ambient_rules import short_root

SER, DE = "serde::ser::Serialize", "serde::de::Deserialize"
ELSEWHERE = ("utils::serializable_map::SerializableMap",)  # C22


def run_key(S, key):
    memo = S.prog.__dict__.setdefault("_enc", {})
    if key not in memo:
        I = Interp(S.prog, key)
        memo[key] = ([X(I, o, norm(key.split("#[")[0])) for o in I.run()], I)
    xs, I = memo[key]
    S.functions |= I.functions
    S.callsites |= I.callsites
    S.roots.append((norm(key.split("#[")[0]), len(xs)))
    S.nexits += len(xs)
    return xs


def fields_of(adt, variant=0):
    return [f[0] for f in adt["variants"][variant]["fields"] if "PhantomData" not in f[1]]


def mentions(t, what):
    return any(u is what for u in subterms(t))


def written(x):
    """what is handed to the serializer on this path, in order; a value made from others as a whole"""
    r = []
    for e in x.st.events():
        if e.kind == "call" and ((e.name or "").startswith("serde::ser::") or (e.name or "").endswith("::serialize")):
            r.append((e.name, e.args or ()))
        for p in e.extra.parts if e.kind == "loop" else ():
            r += [(q.name, q.args or ()) for q in p.events if q.kind == "call"]
    return r


def failed_early(x):
    """a step of the serializer or of the deserializer failed"""
    return any(k.op == "isvar" and ((k.a[1] == "Ok" and v is False) or (k.a[1] == "Err" and v is True)) for k, v in x.st.facts.items() if isinstance(k, T))


def site(key, adt):
    return short_root(adt["path"])


def encodes(S, adt, key, n):
    name, enum = site(key, adt), adt["kind"] == "Enum"
    xs = [x for x in run_key(S, key) if x.isret() and not failed_early(x)]
    order, seen = None, {}
    for x in xs:
        w = written(x)
        args = [a for _, c in w for a in c] + [x.val]
        vs = [v for v in adt["variants"] if not enum or x.st.facts.get(isvar(A1, v["name"])) is True or len(adt["variants"]) == 1]
        if enum:
            vs = vs or [v for v in adt["variants"] if x.st.facts.get(isvar(A1, v["name"])) is not False]
        for v in vs[:1] if len(vs) == 1 else vs:
            fs = [f[0] for f in v["fields"] if "PhantomData" not in f[1]]
            got = []
            for f in fs:
                t = fld(A1, v["name"] if enum else None, f)
                at = [i for i, a in enumerate(args) if mentions(a, t) or a is A1]
                S.xob("encodes-all", "%s %s" % (name, ".".join(([v["name"]] if enum else []) + [f])), bool(at), x, "the field is not handed to the serializer")
                n["fields"] += 1
                got.append((at[0] if at else None, f))
            if not enum:
                order = [f for _, f in sorted(got, key=lambda k: (k[0] is None, k[0]))]
            else:
                n["variants"] += 1
                consts = tuple(pretty(a) for nm, c in w for a in c if a.op in ("int", "str", "bool", "cast"))
                what = (consts, pretty(x.val) if not consts else "")
                other = seen.get(what)
                S.xob("encodes-all", "%s variants told apart" % name, other in (None, v["name"]), x, "%s and %s have the same encoding" % (other, v["name"]))
                seen[what] = v["name"]
                ix = [a.a[0] for nm, c in w for a in c if a.op == "int"]
                if ix and "_variant" in (w[0][0] if w else ""):
                    n.setdefault("index", {})[adt["path"], ix[0]] = v["name"]
    S.ob("encodes-all", "%s can be serialized" % name, bool(xs), "", "no path on which serialization succeeds")
    return order


def position(t):
    """the number of the element of the input a value is made from; None if from none"""
    ds = [0]
    for u in subterms(t):
        if u.op == "app" and u.a[0].endswith("SeqAccess::next_element"):
            ds.append(1 + sum(1 for w in subterms(u.a[1][0]) if w.op == "app" and w.a[0].endswith("SeqAccess::next_element")))
    return max(ds) - 1 if max(ds) else None


def decodes(S, adt, key, order, n):
    name, fn, enum = site(key, adt), key.split(">::")[-1].split("#[")[0], adt["kind"] == "Enum"
    made, got = 0, set()
    for x in run_key(S, key):
        v = x.ok() if x.isret() else None
        if v is None:
            continue
        v = next((u for u in subterms(v) if u.op == "adt" and u.a[0] == adt["path"]), v)
        if v.op != "adt":
            continue
        made += 1
        var = v.a[1] if enum else None
        if enum:
            got.add(var)
            ix = [k.a[1] for k, b in x.st.facts.items() if isinstance(k, T) and k.op == "isvar" and b is True and str(k.a[1]).startswith("__field")]
            if ix and n.get("index"):
                S.xob("decodes-all", "%s the variant that was written" % name, n["index"].get((adt["path"], int(ix[0][7:]))) == var, x, "index %s gives %s" % (ix[0][7:], var))
            fs = [f for f in next(w for w in adt["variants"] if w["name"] == var)["fields"]]
        else:
            fs = adt["variants"][0]["fields"]
        missing = any(k.op == "isvar" and k.a[1] == "Some" and b is False for k, b in x.st.facts.items() if isinstance(k, T))
        for f, ty, *_ in fs:
            if "PhantomData" in ty or missing:
                continue
            t = fld(v, var, f)
            n["read"] += 1
            S.xob("decodes-all", "%s %s" % (name, f), any(u.op == "arg" or u.op == "app" for u in subterms(t)), x, "not read from the input: %s" % clip(pretty(t), 200))
            if fn == "visit_seq" and order and f in order:
                S.xob("decodes-all", "%s %s in the order written" % (name, f), position(t) == order.index(f), x,
                      "written as number %s, read as number %s" % (order.index(f), position(t)))
    if enum and got:
        for w in adt["variants"]:
            S.ob("decodes-all", "%s %s" % (name, w["name"]), w["name"] in got, "", "the variant is never read")
    return made


def counterparts(a, b):
    """fields compared when two values are: the fields themselves, or the components of two tuples"""
    if a.op == "fld" and b.op == "fld" and a.a[1:] == b.a[1:] and {a.a[0], b.a[0]} == {A1, A2}:
        return [a.a[2]]
    if a.op in ("tup", "arr", "adt") and a.op == b.op and type(a.a[-1]) is tuple and type(b.a[-1]) is tuple and len(a.a[-1]) == len(b.a[-1]):
        return [f for x, y in zip(a.a[-1], b.a[-1]) if isinstance(x, T) and isinstance(y, T) for f in counterparts(x, y)]
    if a.op == "mref" and b.op == "mref":
        return counterparts(a.a[0], b.a[0])
    return []


def pairs_compared(t, fn):
    """[field name] compared like with like in a term"""
    r = []
    for u in subterms(t):
        if u.op == "app" and u.a[0].split("::")[-1] in fn and len(u.a[1]) >= 2:
            r += counterparts(u.a[1][0], u.a[1][1])
    return r


def same_content(t, of):
    if t is of:
        return True
    if t.op == "adt" and t.a[-1]:
        return all(same_content(v, fld(of, None, f)) for f, v in zip(t.a[2], t.a[3])) if len(t.a) == 4 else False
    if t.op == "app" and len(t.a[1]) == 1 and t.a[0].split("::")[-1] in ("clone", "to_owned", "into", "from", "into_boxed_slice", "to_vec"):
        return same_content(t.a[1][0], of)
    return False


def equality(S, adt, key, n):
    """true exactly if all fields are equal"""
    name = site(key, adt)
    if adt["kind"] == "Enum":
        vs = [(v["name"], [f[0] for f in v["fields"] if "PhantomData" not in f[1]]) for v in adt["variants"]]
    else:
        vs = [(None, fields_of(adt))]
    for x in run_key(S, key):
        if not S.xob("equality", "%s no panic" % name, x.isret(), x):
            continue
        n["eq"] += 1
        I = x.I
        # a value that is itself a comparison: both outcomes
        if x.val is TRUE or x.val is FALSE:
            outs = [(x.st, x.val is TRUE)]
        else:
            outs = [(s, b) for b, s in I.branch(x.st.fork(), x.val)] if I else []
            S.xob("equality", "%s understood" % name, bool(outs), x, clip(pretty(x.val), 200))
        for st, res in outs:
            for v, fs in vs:
                if v is not None and (I.decide(st, isvar(A1, v)) is False or I.decide(st, isvar(A2, v)) is False) and (I.decide(st, isvar(A1, v)) is not True and I.decide(st, isvar(A2, v)) is not True):
                    continue
                if v is not None and I.decide(st, isvar(A1, v)) is not I.decide(st, isvar(A2, v)):
                    S.xob("equality", "%s different variants differ" % name, res is False, x)
                    continue
                ds = [I.decide(st, eq(fld(A1, v, f), fld(A2, v, f))) for f in fs]
                if res:
                    for f, d in zip(fs, ds):
                        S.xob("equality", "%s equal only if %s is" % (name, f), d is True, x)
                else:
                    S.xob("equality", "%s different only if something is" % name, False in ds, x)


def ordering(S, adt, key, n):
    """decided by the fields, each compared with its counterpart"""
    name = site(key, adt)
    fs = set(fields_of(adt)) if adt["kind"] != "Enum" else set()
    xs = [x for x in run_key(S, key) if x.isret()]
    seen = set()
    for x in xs:
        for t in [x.val] + [k for k in x.st.facts if isinstance(k, T)]:
            seen |= set(pairs_compared(t, ("cmp", "partial_cmp", "eq", "lt", "le")))
            seen |= {u.a[0].a[2] for u in subterms(t) if u.op in ("eq", "lt") and all(w.op == "fld" for w in u.a) and u.a[0].a[2] == u.a[1].a[2]}
            if mentions(t, A1) and mentions(t, A2) and t.op == "app" and t.a[1][0] is A1:
                seen |= fs
    for f in fs:
        n["ord"] += 1
        S.ob("ordering", "%s %s is compared" % (name, f), f in seen, "", "values that differ in %s only are ordered as equal" % f)


def copy(S, adt, key, n):
    name = site(key, adt)
    for x in run_key(S, key):
        if not x.isret():
            continue
        n["clone"] += 1
        if x.val is A1:
            continue
        for f in (fields_of(adt) if adt["kind"] != "Enum" else ()):
            S.xob("copy", "%s %s" % (name, f), same_content(fld(x.val, None, f), fld(A1, None, f)), x, clip(pretty(x.val), 200))


@check("C41")
def c41(S):
    n = {k: 0 for k in ("types", "fields", "variants", "read", "eq", "ord", "clone", "derived")}
    adts = {a["path"]: a for a in S.prog.ix["adts"]}
    fns = {f["key"]: f for f in S.prog.ix["fns"]}

    def keys(path, trait, name, also=()):
        r = []
        for k in list(S.prog.encodings) + list(S.prog.roots):
            f = fns.get(k)
            if f is not None and f["name"] == name and f.get("impl_adt") == path and f.get("impl_trait") == trait:
                r.append(k)
        return r

    for i in S.prog.ix["impls"]:
        path = i.get("adt")
        if path not in adts or "::_::" in path or path in ELSEWHERE or "::tests::" in path or path.startswith("tests::"):
            continue
        adt, tr = adts[path], i.get("trait") or ""
        if tr == SER:
            n["types"] += 1
            ks = keys(path, SER, "serialize")
            S.ob("encodes-all", "%s found" % short_root(path), len(ks) == 1, i["span"], "%d functions which serialize it" % len(ks))
            if len(ks) != 1:
                continue
            order = encodes(S, adt, ks[0], n)
            made, vis = 0, [k for k in S.prog.encodings if ("for %s>::deserialize::__Visitor" % path in k or "for %s<" % path in k and ">::deserialize::__Visitor" in k) and "__DeserializeWith" not in k]
            for k in vis + keys(path, DE, "deserialize"):
                made += decodes(S, adt, k, order, n)
            if any(j.get("adt") == path and (j.get("trait") or "") == DE for j in S.prog.ix["impls"]) and fields_of(adt, 0) and adt["kind"] != "Enum":
                S.ob("decodes-all", "%s is read" % short_root(path), made > 0, i["span"], "no function which builds it from what is read")
        elif i.get("derived"):
            n["derived"] += 1
            if tr in ("core::cmp::PartialEq", "core::cmp::Ord", "core::clone::Clone"):
                S.ob({"PartialEq": "equality", "Ord": "ordering", "Clone": "copy"}[tr.split("::")[-1]], "%s by the compiler" % short_root(path), True, i["span"])
        elif tr in ("core::cmp::PartialEq", "core::cmp::Ord", "core::cmp::PartialOrd", "core::clone::Clone"):
            for k in S.prog.roots:
                f = fns.get(k)
                if f is None or f.get("impl_adt") != path or f.get("impl_trait") != tr or re.search(r" as core::cmp::Partial\w+<", k) or f["name"] not in ("eq", "cmp", "partial_cmp", "clone"):
                    continue
                if "<" in (i.get("trait_full") or "").split(" as ")[-1] and tr != "core::clone::Clone":
                    continue  # compared with something else (C39)
                {"eq": equality, "cmp": ordering, "partial_cmp": ordering, "clone": copy}[f["name"]](S, adt, k, n)
    S.need("encodes-all", "types", n["types"], 30)
    S.need("encodes-all", "fields", n["fields"], 45)
    S.need("encodes-all", "variants", n["variants"], 8)
    S.need("decodes-all", "fields", n["read"], 60)
    S.need("equality", "derived impls", n["derived"], 60)
    S.notes.append("%(types)d types with an encoding, %(fields)d fields written, %(read)d read, %(variants)d variants; %(derived)d derived impls, %(eq)d exits of hand-written equality" % n)

