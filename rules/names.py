"""Puts private names into the form the rules use.

The rules name private fields, types and functions of manul.  Such a name means nothing by itself: if it is gone from the
current tree, and exactly one thing which did not exist before has its place (same type, same owner or same name), that
thing is called by the known name from here on.  `names.json` has the known names (`python3 rules/names.py` writes it from
the facts of the current tree).  Names only decide what is looked at; what it does is judged by the rules."""
import json, os, re, sys

HERE = os.path.dirname(os.path.abspath(__file__))
REF = os.path.join(HERE, "names.json")


def shape(index):
    adts = {a["path"]: [[v["name"] if a["kind"] == "Enum" else "", [[f[0], f[1]] for f in v["fields"]]] for v in a["variants"]] for a in index["adts"]}
    fns = {f["def"]: [f["name"], f["sig"], f.get("impl_trait")] for f in index["fns"] if not f["derived"]}
    return {"adts": adts, "fns": fns}


def sub(m):
    """textual renaming of paths"""
    if not m:
        return lambda s: s
    rx = re.compile(r"(?<![\w:])(%s)(?!\w)" % "|".join(re.escape(k) for k in sorted(m, key=len, reverse=True)))
    return lambda s: rx.sub(lambda x: m[x.group(1)], s)


def last(p):
    return p.split("::")[-1]


def parent(p):
    return p[:len(p) - len(last(p))]


def unique(missing, new, key_m, key_n):
    """pairs which are the only ones with their key"""
    a, b = {}, {}
    for x in missing:
        a.setdefault(key_m(x), []).append(x)
    for x in new:
        b.setdefault(key_n(x), []).append(x)
    return {b[k][0]: a[k][0] for k in a if k is not None and len(a[k]) == 1 and len(b.get(k, ())) == 1}


def renames(ref, cur):
    # types
    adt = {}

    def types(d, p, names=True, f=lambda s: s):
        own = sub({p: "@self"})
        return json.dumps([[v if names else "", [[n if names else "", own(f(t))] for n, t in fs]] for v, fs in d[p]])

    def step(key_m, key_n):
        missing = [p for p in ref["adts"] if p not in cur["adts"] and p not in adt.values()]
        new = [p for p in cur["adts"] if p not in ref["adts"] and p not in adt]
        adt.update(unique(missing, new, key_m, key_n))

    for _ in range(2):
        step(lambda p: last(p), lambda p: last(p))
        for names in (True, False):
            step(lambda p: parent(p) + types(ref["adts"], p, names), lambda p: parent(p) + types(cur["adts"], p, names, sub(adt)))
    ty = sub(adt)
    # variants and fields
    var, fld = {}, {}
    for p, vs in cur["adts"].items():
        q = adt.get(p, p)
        if q not in ref["adts"]:
            continue
        rv = {v: fs for v, fs in ref["adts"][q]}
        cv = {v: [[n, ty(t)] for n, t in fs] for v, fs in vs}
        new = [v for v in cv if v not in rv]
        missing = [v for v in rv if v not in cv]
        if new and missing:
            for n, m in unique(missing, new, lambda v: json.dumps([t for _, t in rv[v]]), lambda v: json.dumps([t for _, t in cv[v]])).items():
                var[(p, n)] = m
        for v, fs in cv.items():
            r = rv.get(var.get((p, v), v))
            if r is None:
                continue
            have = {n for n, _ in fs}
            known = {n for n, _ in r}
            fnew = [(n, t) for n, t in fs if n not in known]
            fmis = [(n, t) for n, t in r if n not in have]
            for t in {t for _, t in fmis}:
                a = [n for n, x in fmis if x == t]
                b = [n for n, x in fnew if x == t]
                if len(a) == len(b):
                    for x, y in zip(b, a):
                        fld[(p, v, x)] = y
    # fields gathered in a new structure
    group = {}
    for p, vs in cur["adts"].items():
        r = ref["adts"].get(adt.get(p, p))
        if r is None or len(r) != 1 or len(vs) != 1 or r[0][0] or vs[0][0]:
            continue
        taken = {fld.get((p, "", n), n) for n, _ in vs[0][1]}
        gone = [(n, t) for n, t in r[0][1] if n not in taken]
        for n, t in vs[0][1]:
            inner = t.split("<")[0]
            if (p, "", n) in fld or n in {m for m, _ in r[0][1]} or inner in ref["adts"] or inner in adt or inner not in cur["adts"]:
                continue
            iv = cur["adts"][inner]
            if len(iv) != 1 or iv[0][0]:
                continue
            m = gathered([(a, ty(b)) for a, b in iv[0][1]], gone)
            if m:
                group[p, n] = (inner, m)
                gone = [x for x in gone if x[0] not in m.values()]
                for a, b in m.items():
                    fld[(inner, "", a)] = b
                fld[(p, "", n)] = "~" + n
    # functions
    fn = {}
    cf = {ty(d): [n, ty(s), ty(t) if t else t] for d, (n, s, t) in cur["fns"].items()}

    def fstep(key_m, key_n):
        missing = [d for d in ref["fns"] if d not in cf and d not in fn.values()]
        new = [d for d in cf if d not in ref["fns"] and d not in fn]
        fn.update(unique(missing, new, key_m, key_n))

    fstep(lambda d: parent(d) + json.dumps(ref["fns"][d][1:]), lambda d: parent(d) + json.dumps(cf[d][1:]))
    fstep(lambda d: json.dumps(ref["fns"][d]), lambda d: json.dumps(cf[d]))
    return adt, var, fld, fn, group


def gathered(inner, gone):
    """which of the fields that are gone the fields of a new structure are"""
    m = {}
    for rule in (lambda a, b: a == b, lambda a, b: a[1] == b[1], lambda a, b: a[0].split("_")[0] == b[0].split("_")[0]):
        i = [a for a in inner if a[0] not in m]
        g = [b for b in gone if b[0] not in m.values()]
        for a in i:
            c = [b for b in g if rule(a, b)]
            if len(c) == 1 and sum(rule(x, c[0]) for x in i) == 1:
                m[a[0]] = c[0][0]
    i = [a for a in inner if a[0] not in m]
    g = [b for b in gone if b[0] not in m.values()]
    if m and len(i) == 1 and len(g) == 1:
        m[i[0][0]] = g[0][0]
    return m if inner and len(m) == len(inner) else None


MARK = re.compile(r'"@([^@"]+)@(\w*)(?:@(\w+))?"')


def canonicalise(d):
    files = [f for f in os.listdir(d) if f.endswith(".json")]
    index = json.load(open(os.path.join(d, "index.json")))
    ref = json.load(open(REF)) if os.path.exists(REF) else shape(index)
    adt, var, fld, fn, group = renames(ref, shape(index))
    path = sub(adt)
    fpath = sub(fn)

    def mark(m):
        p, v, f = m.group(1), m.group(2), m.group(3)
        enum = p in enums
        if f is not None:
            n = fld.get((p, v if enum else "", f), f)
        else:
            n = var.get((p, v), v) if enum else last(adt.get(p, p))
        return '"%s"' % n

    enums = {a["path"] for a in index["adts"] if a["kind"] == "Enum"}

    def fix(x):
        """the name of a function goes with its path"""
        if isinstance(x, dict):
            for k in ("def", "rdef"):
                if x.get(k) in fn.values() and "name" in x:
                    x["name"] = last(x[k])
            for y in x.values():
                fix(y)
        elif isinstance(x, list):
            for y in x:
                fix(y)

    for a in index["adts"]:
        for v in a["variants"]:
            for f in v["fields"]:
                f[0] = fld.get((a["path"], v["name"] if a["kind"] == "Enum" else "", f[0]), f[0])
            v["name"] = var.get((a["path"], v["name"]), v["name"]) if a["kind"] == "Enum" else last(adt.get(a["path"], a["path"]))
    fields = {a["path"]: a["variants"][0]["fields"] for a in index["adts"] if a["variants"]}
    index["groups"] = {"~" + n: [inner, [f[0] for f in fields[inner]]] for (_, n), (inner, _) in group.items()}
    for a in index["adts"]:
        for v in a["variants"]:
            v["fields"] = [g for f in v["fields"] for g in (fields[index["groups"][f[0]][0]] if f[0] in index["groups"] else [f])]
    for f in files:
        p = os.path.join(d, f)
        t = json.dumps(index, separators=(",", ":")) if f == "index.json" else open(p).read()
        t = MARK.sub(mark, t)
        if adt or fn:
            t = fpath(path(t))
        if fn:
            j = json.loads(t)
            fix(j)
            t = json.dumps(j, separators=(",", ":"))
        open(p, "w").write(t)
    done = ["type %s = %s" % x for x in adt.items()] + ["variant %s::%s = %s" % (p, v, n) for (p, v), n in var.items()] + \
        ["field %s%s.%s = %s" % (p, "::" + v if v else "", f, n) for (p, v, f), n in fld.items()] + ["function %s = %s" % x for x in fn.items()] + ["structure %s of %s" % (i, p) for (p, _), (i, _) in group.items()]
    json.dump(done, open(os.path.join(d, "renamed"), "w"))
    return done


if __name__ == "__main__":
    import facts
    out = facts.facts()[0]
    done = json.load(open(os.path.join(out, "renamed")))
    if done:
        sys.exit("the current tree uses other names: %s" % done)
    json.dump(shape(json.load(open(os.path.join(out, "index.json")))), open(REF, "w"), indent=0, sort_keys=True)
