"""P09 - group functions transform each record exactly as documented."""
import ipaddress
import keyword

import gen

RULE = ("groups of 3-8 variables (some optional, some with defaults) run through pipelines of 1-6 group functions given as attributes, as functions/chain strings, as chain variables or mixed, applied to every "
        "record by a reference written from the documentation; itemizing to the group path, to own, dynamic and dotted paths; expanding dotted names; schema validation against generated schemas; parents and "
        "children with pipelines of their own, parent values after the children. Non-trivial: the pipeline changed at least one record and left or met a missing key in another.")
NEED = {"schema_absent": 116, "vars_named_as_keys": 1011, "int_lists": 714, "lists_left_alone": 1165, "function_calls": 35244, "records_changed": 8148, "missing_key": 11036, "dropped": 3778, "defaults_used": 2611, "sformat":
        5799, "sformat_missing": 1678, "to_int": 9313, "set": 5037, "record": 1525, "to_ip": 966, "del": 2398, "itemized": 3008, "itemize_path": 1784, "itemize_dynamic": 308, "itemize_zero": 337, "expanded": 6735, "items2dict":
        1488, "cerberus_dropped": 1526, "cerberus_kept": 1990, "validated": 2322, "validate_errors": 1394, "nested": 7030, "tail_values": 608, "chain_vars": 926, "attributes": 1204}

VALS = ["10", "0", "-3", "007", "1.5", "1e2", "abc", "up", "10.0.0.1", "192.168.1.77", "fe80::1", "24", "64", "255.255.255.0", "a.b", "Gi0/1", "x,y", "1,2,3", "nan-x", "1_0", "٣", "{x}", "True", "-", "16.30", "0x10"]


def val(rng):
    return rng.choice(VALS) if rng.random() < 0.7 else gen.word(rng) + str(rng.randint(0, 99))


def num(v):
    try:
        return int(v)
    except (TypeError, ValueError):
        try:
            return float(v)
        except (TypeError, ValueError):
            return v


DROP = object()
SKIP = object()


def attr(rng, name, args, kwargs):
    """source of a call: unquoted words where that is possible"""
    def q(x):
        if isinstance(x, str):
            if x.isidentifier() and rng.random() < 0.4 and not keyword.iskeyword(x):
                return x
            return repr(x)
        return repr(x)
    return ", ".join([q(a) for a in args] + ["%s=%s" % (k, q(v)) for k, v in kwargs.items()])


class Env:
    """what group functions see"""

    def __init__(self, tvars):
        self.tvars = dict(tvars)
        self.vars = dict(tvars)
        self.globs = {}


def gen_func(rng, M, keys, env, names, leaf=True):
    """(name, args, kwargs, reference(rec, env) -> rec or DROP)"""
    present = list(keys)
    k = rng.choice(["del", "sformat", "sformat", "to_int", "to_int", "set", "set", "record", "to_ip", "str_to_unicode", "to_int_all"] + (["items2dict", "contains", "equal"] if leaf else []))
    key = lambda: rng.choice(present) if rng.random() < 0.85 else "nokey_" + names[0]  # noqa: E731
    if k == "del":
        ks = [key() for _ in range(rng.randint(1, 2))]

        def f(r, e):
            M.ev("del")
            for x in ks:
                if x not in r:
                    M.ev("missing_key")
                r.pop(x, None)
            return r
        return "del", ks, {}, f
    if k == "sformat":
        fld = rng.choice([key(), "f_" + names.pop(), "f_" + names[0]])
        parts = [rng.choice(present + list(env.tvars) + ["undefined_" + names[0]] * (rng.random() < 0.3)) for _ in range(rng.randint(1, 3))]
        s = rng.choice(["", "p-", "desc "]) + rng.choice(["-", ".", " / ", ":"]).join("{%s}" % p for p in parts) + rng.choice(["", "!", " end"])
        if rng.random() < 0.1:
            s = "constant text"

        def f(r, e):
            M.ev("sformat")
            d = dict(e.globs)
            d.update(e.vars)
            d.update(r)
            if all("{%s}" % p not in s or p in d for p in parts):
                r[fld] = s.format(**d)
            else:
                M.ev("sformat_missing")
                M.ev("missing_key")
            return r
        return ("sformat", [s, fld], {}, f) if rng.random() < 0.5 else ("sformat", [], {"string": s, "add_field": fld}, f)
    if k == "to_int":
        ks = [key() for _ in range(rng.randint(1, 3))]

        def f(r, e):
            M.ev("to_int")
            for x in ks:
                if x in r:
                    if isinstance(r[x], str):
                        r[x] = num(r[x])
                else:
                    M.ev("missing_key")
            return r
        return "to_int", ks, {}, f
    if k == "to_int_all":
        def f(r, e):
            M.ev("to_int")
            return {x: num(v) if isinstance(v, str) else v for x, v in r.items()}
        return "to_int", [], {}, f
    if k == "set":
        src = rng.choice(list(env.tvars) + ["rec_" + names[0]] + ["undef_" + names[0]])
        tgt = rng.choice(["t_" + names.pop(), key()])
        dflt = rng.choice(["dflt", "global", 5, "", 0, None])

        def f(r, e):
            M.ev("set")
            r[tgt] = e.vars.get(src, e.globs.get(src, dflt))
            return r
        if src in env.tvars and rng.random() < 0.5:
            if rng.random() < 0.3:
                def g(r, e):
                    M.ev("set")
                    r[src] = e.vars[src]
                    return r
                return "set", [src], {}, g
            return "set", [src, tgt], {}, f
        return "set", [src, tgt], {"default": dflt}, f
    if k == "record":
        src, tgt = key(), "rec_" + names[0]
        if rng.random() < 0.3:
            tgt = src

        def f(r, e):
            M.ev("record")
            if src in r:
                e.vars[tgt] = e.globs[tgt] = r[src]
            else:
                M.ev("missing_key")
            return r
        return ("record", [src], {}, f) if tgt == src else ("record", [src, tgt], {}, f)
    if k == "to_ip":
        a, b = key(), key()
        if a == b:
            b = "nokey2_" + names[0]

        def f(r, e):
            if a in r and b in r:
                s = "%s/%s" % (r[a], r[b])
                M.ev("to_ip")
                try:
                    r[a] = ipaddress.ip_interface(s)
                except ValueError:
                    pass
            else:
                M.ev("missing_key")
            return r
        return ("to_ip", [a, b], {}, f) if rng.random() < 0.5 else ("to_ip", [], {"ip_key": a, "mask_key": b}, f)
    if k == "str_to_unicode":
        return "str_to_unicode", [], {}, lambda r, e: r
    if k == "items2dict":
        a, b = key(), key()
        if a == b:
            b = "nokey2_" + names[0]

        def f(r, e):
            M.ev("items2dict")
            if a not in r or b not in r:
                M.ev("missing_key")
                return DROP
            v = r.pop(b)
            try:
                r[r.pop(a)] = v
            except TypeError:
                return SKIP
            return r
        return "items2dict", [a, b], {}, f
    if k == "contains":
        a = rng.choice(present)

        def f(r, e):
            return r if a in r else DROP
        return "contains", [a], {}, f
    a, v = rng.choice(present), rng.choice(VALS)
    v = "up"
    return "equal", [a, v], {}, lambda r, e: r if r.get(a) == v else DROP


def pipeline_source(rng, M, funcs, tvars, names):
    """attribute text for the list of functions: (attributes, extra vars)"""
    calls = ["%s(%s)" % (n, attr(rng, n, a, kw)) if a or kw or rng.random() < 0.5 else n for n, a, kw, _ in funcs]
    form = rng.choice(["attrs", "functions", "chain", "chainvar", "mixed"])
    if form in ("attrs", "mixed") and len({n for n, *_ in funcs}) == len(funcs):
        out = []
        if form == "attrs":
            M.ev("attributes")
            for n, a, kw, _ in funcs:
                out.append("%s=%s" % (n, gen.quoteattr(attr(rng, n, a, kw))))
            return " " + " ".join(out), {}
        i = rng.randint(0, len(funcs))
        if funcs[:i]:
            out.append("functions=%s" % gen.quoteattr(" | ".join(calls[:i])))
        for n, a, kw, _ in funcs[i:]:
            out.append("%s=%s" % (n, gen.quoteattr(attr(rng, n, a, kw))))
        M.ev("attributes")
        return " " + " ".join(out), {}
    if form == "chainvar":
        M.ev("chain_vars")
        n = "chain_" + names.pop()
        return ' %s="%s"' % (rng.choice(["chain", "functions"]), n), {n: list(calls) if rng.random() < 0.5 else " | ".join(calls)}
    return " %s=%s" % (rng.choice(["chain", "functions"]), gen.quoteattr(rng.choice([" | ", "|", " |"]).join(calls))), {}


def vars_tag(d):
    return '<vars load="python">\n%s\n</vars>\n' % "\n".join("%s = %s" % (k, gen.escape(repr(v))) for k, v in d.items()) if d else ""


def run_funcs(M, funcs, rec, env):
    before = dict(rec)
    for n, a, kw, f in funcs:
        M.ev("function_calls")
        rec = f(rec, env)
        if rec is SKIP:
            return {}
        if rec is DROP:
            M.ev("dropped")
            return None
    if rec != before:
        M.ev("records_changed")
    return rec


def group_src(rng, M, keys, kw, defaults, ind):
    out = ["%s%s {{ %s }}" % (ind, kw[0], keys[0])]
    for k, w in zip(keys[1:], kw[1:]):
        out.append("%s %s {{ %s%s }}" % (ind, w, k, ' | default("%s")' % defaults[k] if k in defaults else ""))
    return "\n".join(out)


def pipelines(rng, M):
    """1-2 groups with random pipelines of functions"""
    names, kws = gen.words(rng, 60), gen.words(rng, 40)
    tvars = {"tv_%s" % names.pop(): rng.choice(["text", 7, ["l", 1], {"k": "v"}]) for _ in range(rng.randint(0, 2))}
    env = Env(tvars)
    t, rows, exp = "", [], {}
    extra = {}
    groups = []
    for gi in range(rng.choice([1, 1, 2])):
        keys = [names.pop() for _ in range(rng.randint(3, 7))]
        kw = [kws.pop() for _ in keys]
        if rng.random() < 0.4:
            # a template variable named as a variable of the record
            k = rng.choice(keys)
            tvars[k] = env.tvars[k] = env.vars[k] = "of the template"
            M.ev("vars_named_as_keys")
        defaults = {k: rng.choice(["none", "0", "12"]) for k in keys[1:] if rng.random() < 0.25}
        funcs = []
        nokey = ["n%d" % gi] + names[-20:]
        for _ in range(rng.randint(1, 6)):
            f = gen_func(rng, M, keys, env, nokey)
            # contains with defaults is another property's
            if f[0] == "contains" and f[1][0] in defaults:
                continue
            funcs.append(f)
        if not funcs:
            continue
        src, ev = pipeline_source(rng, M, funcs, tvars, names)
        extra.update(ev)
        groups.append((keys, kw, defaults, funcs, src))
    # chain variables are template variables as any other
    env.vars.update(extra)
    for gi, (keys, kw, defaults, funcs, src) in enumerate(groups):
        t += '<group name="g%d*"%s>\n%s\n</group>\n' % (gi, src, group_src(rng, M, keys, kw, defaults, ""))
        recs = []
        for i in range(rng.randint(1, 5)):
            r = {}
            for j, (k, w) in enumerate(zip(keys, kw)):
                if j and rng.random() < 0.35:
                    if k in defaults:
                        r[k] = defaults[k]
                        M.ev("defaults_used")
                    continue
                r[k] = val(rng)
                rows.append("%s%s %s" % (" " if j else "", w, r[k]))
            if len(keys) and rng.random() < 0.3:
                rows.append("!")
            r = run_funcs(M, funcs, r, env)
            if r == {}:
                # how a record left without any value is reported is not decided
                M.case("", nontrivial=False)
                return
            if r is not None:
                recs.append(r)
        if recs:
            exp["g%d" % gi] = recs
    if not groups:
        M.case("", nontrivial=False)
        return
    t = vars_tag(dict(tvars, **extra)) + t
    res = M.parse(t, "\n".join(rows))
    M.eq(res, [[exp]], "records after group functions", functions=[[(n, a, kw) for n, a, kw, _ in g[3]] for g in groups])
    M.case((t, tuple(rows)), sample={"template": t, "expected": exp})


def lists(rng, M):
    """records with values that are lists: conversion of lists of numbers, other values left alone"""
    names, kws = gen.words(rng, 8), gen.words(rng, 8)
    n = rng.randint(2, 5)
    keys, kw = names[:n], kws[:n]
    islist = [False] + [rng.random() < 0.6 for _ in keys[1:]]
    which = rng.choice([[], rng.sample(keys, rng.randint(1, n)), rng.sample(keys, 1) + ["absent"]])
    intlist = rng.choice([True, True, True, False, None])
    pre = rng.random() < 0.3 and n > 2
    args = list(which)
    kwa = {} if intlist is None else {"intlist": intlist}
    src = ', '.join(args + ["%s=%s" % x for x in kwa.items()])
    t = '<group name="g*"%s to_int="%s">\n%s {{ %s }}\n%s</group>' % (
        ' del="%s"' % keys[-1] if pre else "", src, kw[0], keys[0],
        "".join(" %s {{ %s%s }}\n" % (w, k, ' | split(",")' if li else "") for w, k, li in zip(kw[1:], keys[1:], islist[1:])))
    rows, exp = [], []
    cell = lambda: rng.choice(["1", "007", "4094", "-5", "+3", "1.5", "60.0", "x", "1-4", "none", "0x1F", "1e3", "a1"])  # noqa: E731
    for _ in range(rng.randint(1, 4)):
        r = {}
        for i, (k, w) in enumerate(zip(keys, kw)):
            if i and rng.random() < 0.25:
                continue
            v = [cell() for _ in range(rng.randint(1, 5))] if islist[i] else cell()
            rows.append("%s%s %s" % (" " if i else "", w, ",".join(v) if islist[i] else v))
            if not (pre and i == n - 1):
                conv = not which or k in which
                if conv and isinstance(v, list) and intlist:
                    v = [num(x) for x in v]
                    M.ev("int_lists")
                elif conv and isinstance(v, str):
                    v = num(v)
                elif isinstance(v, list):
                    M.ev("lists_left_alone")
                r[k] = v
        exp.append(r)
    res = M.parse(t, "\n".join(rows))
    M.eq(res, [[{"g": exp}]], "lists converted to numbers")
    M.case((t, tuple(rows)), nontrivial=any(islist))


def nested(rng, M):
    """parent and child groups with pipelines of their own; parent values after the children"""
    names, kws = gen.words(rng, 60), gen.words(rng, 40)
    tvars = {"tv_%s" % names.pop(): rng.choice(["text", 7])}
    extra = {}
    lv = []
    tail = rng.random() < 0.4
    for d in range(rng.choice([2, 2, 3])):
        keys = [names.pop() for _ in range(rng.randint(2, 4))]
        kw = [kws.pop() for _ in keys]
        leaf = False
        funcs = []
        nokey = ["n%d" % d] + [names.pop() for _ in range(8)]
        env0 = Env(tvars)
        while len(funcs) < rng.randint(1, 4):
            f = gen_func(rng, M, keys, env0, nokey, leaf)
            # a record left without values of its own is not decided
            if f[0] == "del" and keys[0] in f[1]:
                continue
            if f[0] in ("record",) or (f[0] == "set" and f[1] and f[1][0].startswith("rec_")):
                continue
            funcs.append(f)
        if tail and d == 0:
            # functions see the record with its values before and after the children
            funcs = [f for f in funcs if f[0] in ("del", "to_int", "to_ip", "str_to_unicode")][:2]
        src, ev = pipeline_source(rng, M, funcs, tvars, names) if funcs else ("", {})
        extra.update(ev)
        lv.append((keys, kw, funcs, src))
    env = Env(dict(tvars, **extra))
    tkey, tkw = names.pop(), kws.pop()

    def tmpl(d):
        keys, kw, funcs, src = lv[d]
        s = '<group name="%s*"%s>\n%s\n' % ("top" if d == 0 else "lv%d" % d, src, group_src(rng, M, keys, kw, {}, " " * (2 * d)))
        if d + 1 < len(lv):
            s += tmpl(d + 1)
        if d == 0 and tail:
            s += " %s {{ %s }}\n" % (tkw, tkey)
        return s + "</group>\n"
    rows = []

    def data(d):
        keys, kw, funcs, _ = lv[d]
        r = {}
        for j, (k, w) in enumerate(zip(keys, kw)):
            if j and rng.random() < 0.3:
                continue
            r[k] = val(rng)
            rows.append("%s%s %s" % (" " * (2 * d) + (" " if j else ""), w, r[k]))
        kids = [data(d + 1) for _ in range(rng.randint(1 if tail else 0, 3))] if d + 1 < len(lv) else []
        if d == 0 and tail and rng.random() < 0.8:
            r[tkey] = val(rng)
            rows.append(" %s %s" % (tkw, r[tkey]))
            M.ev("tail_values")
        r = run_funcs(M, funcs, r, env)
        M.ev("nested")
        if kids:
            r["lv%d" % (d + 1)] = kids
        return r
    exp = [data(0) for _ in range(rng.randint(1, 3))]
    if any(not [k for k in x if not k.startswith("lv")] for x in walk(exp)):
        # a record without values of its own is not reported
        M.case("", nontrivial=False)
        return
    t = vars_tag(dict(tvars, **extra)) + tmpl(0)
    res = M.parse(t, "\n".join(rows))
    M.eq(res, [[{"top": exp}]], "nested records after group functions", functions=[[(n, a, kw) for n, a, kw, _ in x[2]] for x in lv])
    M.case((t, tuple(rows)))


def walk(recs):
    for r in recs:
        yield r
        for k, v in r.items():
            if k.startswith("lv") and isinstance(v, list):
                yield from walk([x for x in v if isinstance(x, dict)])


def put(root, path, item):
    for p in path[:-1]:
        root = root.setdefault(p, {})
    root.setdefault(path[-1], []).append(item)


def itemize(rng, M):
    names, kws = gen.words(rng, 30), gen.words(rng, 20)
    root, rows, t = {}, [], ""
    dyn = rng.random() < 0.3
    for gi in range(rng.choice([1, 1, 2])):
        keys = [names.pop() for _ in range(3)]
        kw = [kws.pop() for _ in keys]
        typ = rng.choice([None, None, "to_int"])
        base = rng.choice([["it%d" % gi], ["a", "it%d" % gi], ["a", "b", "it%d" % gi]])
        key = rng.choice(keys)
        path = rng.choice([None, None, ["pp%d" % gi], ["a", "pp%d" % gi], ["x", "y%d" % gi]])
        dkey = keys[1]
        if dyn and key != dkey:
            tgt = base if path is None else path
            tgt.append("{{ %s }}" % dkey)
        star = rng.choice(["", "*", "**"])
        pre = rng.choice(["", "contains('%s') | " % keys[2]])
        call = "itemize(%s)" % ("%r" % key if rng.random() < 0.5 else "key=%r" % key)
        if path is not None:
            call = "itemize(%r, %s%r)" % (key, rng.choice(["", "path="]), ".".join(path) + rng.choice(["", "", "*", "**"]))
        name = ".".join(base) + star
        if "{{" in name:
            name = ".".join(base)
        if path is not None:
            name = ".".join(base) + rng.choice(["", "*"])
            if not name.endswith("*"):
                name += "*"
        lines = ["%s {{ %s%s }}" % (kw[0], keys[0], " | to_int" if typ else "")] + [" %s {{ %s%s }}" % (w, k, " | to_int" if typ and k != dkey else "") for k, w in zip(keys[1:], kw[1:])]
        t += '<group name=%s functions=%s>\n%s\n</group>\n' % (gen.quoteattr(name), gen.quoteattr(pre + call), "\n".join(lines))
        for i in range(rng.randint(1, 6)):
            r = {}
            for j, (k, w) in enumerate(zip(keys, kw)):
                if j and rng.random() < 0.25:
                    continue
                v = rng.choice(["0", "0", "1", "7"]) if typ and k != dkey else rng.choice(["Vlan%d", "ge-%d", "v%d"]) % rng.randint(0, 50)
                if k == dkey:
                    v = rng.choice(["aa", "bb", "cc"])
                r[k] = int(v) if typ and k != dkey else v
                rows.append("%s%s %s" % (" " if j else "", w, v))
            if pre and keys[2] not in r or key not in r:
                M.ev("dropped")
                continue
            tgt = base if path is None else path
            real = []
            for p in tgt:
                if p.startswith("{{"):
                    if dkey not in r:
                        real = None
                        break
                    real.append(r[dkey])
                    M.ev("itemize_dynamic")
                else:
                    real.append(p)
            if real is None:
                # the latest value would be used, out of this check
                M.case("", nontrivial=False)
                return
            put(root, real, r[key])
            M.ev("itemized")
            if r[key] == 0 and type(r[key]) is int:
                M.ev("itemize_zero")
            if path is not None:
                M.ev("itemize_path")
                rr = dict(r)
                if len(real) and tgt[-1].startswith("{{"):
                    # as for group names, a value used in the path is taken out of the record
                    rr.pop(dkey)
                put(root, base, rr)
    res = M.parse(t, "\n".join(rows))
    M.eq(res, [[root]], "itemized values")
    M.case((t, tuple(rows)), sample={"template": t, "expected": root})


def expand(rng, M):
    names, kws = gen.words(rng, 90), gen.words(rng, 30)
    rng.shuffle(names)
    heads = [names.pop() for _ in range(3)]
    keys = [names.pop()]
    for _ in range(rng.randint(2, 6)):
        # names are expanded to the same level: only the last part differs
        keys.append(rng.choice([names.pop(), heads[0] + "." + names.pop(), heads[1] + "." + names.pop(), "%s.s.%s" % (heads[2], names.pop()), "%s.s.t.%s" % (names.pop(), names.pop())]))
    if rng.random() < 0.3:
        keys[0] = heads[0] + "." + keys[0]
    kw = [kws.pop() for _ in keys]
    child = rng.random() < 0.4
    pre = rng.choice(["", "to_int | ", "del(%r) | " % keys[-1]])
    attrs = 'functions=%s' % gen.quoteattr(pre + "expand") if pre or rng.random() < 0.5 else 'expand=""'
    ck, cn = kws.pop(), names.pop()
    cexp = rng.random() < 0.5
    t = '<group name="g*" %s>\n%s\n' % (attrs, group_src(rng, M, keys, kw, {}, ""))
    if child:
        t += '<group name="c*"%s>\n  %s {{ %s }}\n</group>\n' % (' expand=""' if cexp else "", ck, "sub." + cn)
    t += "</group>"
    rows, exp = [], []
    for i in range(rng.randint(1, 5)):
        r = {}
        for j, (k, w) in enumerate(zip(keys, kw)):
            if j and rng.random() < 0.3:
                continue
            v = val(rng)
            rows.append("%s%s %s" % (" " if j else "", w, v))
            if "to_int" in pre:
                v = num(v)
            if "del" in pre and k == keys[-1]:
                continue
            r[k] = v
        e = {}
        for k, v in r.items():
            d = e
            ps = k.split(".")
            for p in ps[:-1]:
                d = d.setdefault(p, {})
            d[ps[-1]] = v
            if len(ps) > 1:
                M.ev("expanded")
        if child:
            kids = []
            for _ in range(rng.randint(0, 2)):
                v = val(rng)
                rows.append("  %s %s" % (ck, v))
                kids.append({"sub": {cn: v}} if cexp else {"sub." + cn: v})
            if kids:
                e["c"] = kids
        exp.append(e)
    res = M.parse(t, "\n".join(rows))
    M.eq(res, [[{"g": exp}]], "expanded names")
    M.case((t, tuple(rows)), sample={"template": t, "expected": exp[:2]})


def rule_for(rng, names):
    """(cerberus rule, predicate on value)"""
    c = rng.choice(["allowed", "regex", "min", "max", "type", "forbidden", "minlength", "maxlength", "nullable"])
    if c == "allowed":
        a = rng.sample(VALS, 8)
        return {"allowed": a}, lambda v: v in a
    if c == "forbidden":
        a = rng.sample(VALS, 8)
        return {"forbidden": a}, lambda v: v not in a
    if c == "regex":
        import re
        p = rng.choice([".*[0-9].*", "[a-z]+", "1.*", r"[0-9.]+"])
        return {"regex": p}, lambda v: re.match("(?:%s)$" % p, v) is not None
    if c == "minlength":
        return {"minlength": 3}, lambda v: len(v) >= 3
    if c == "maxlength":
        return {"maxlength": 3}, lambda v: len(v) <= 3
    if c == "type":
        x = rng.choice(["string", "integer"])
        return {"type": x}, lambda v: x == "string"
    return {"type": "string"}, lambda v: True


def schema(rng, M):
    """validation against schemas, filtering and reporting"""
    names, kws = gen.words(rng, 40), gen.words(rng, 30)
    t, rows, exp, tv = "", [], {}, {}
    for gi in range(rng.choice([1, 2, 2])):
        keys = [names.pop() for _ in range(rng.randint(2, 5))]
        kw = [kws.pop() for _ in keys]
        sch, preds, renamed = {}, {}, []
        for k in keys:
            if rng.random() < 0.7:
                s, p = rule_for(rng, names)
                s = dict(s)
                if rng.random() < 0.3:
                    s["required"] = True
                if rng.random() < 0.12:
                    # normalization rules of the engine: used for the verdict, records are not rewritten by them
                    M.ev("schema_normalizing")
                    good = [v for v in VALS if p(v)]
                    if rng.random() < 0.3 or not good:
                        s, p = {"rename": names.pop()}, lambda v: True
                        renamed.append(k)
                    else:
                        s["default"] = rng.choice(good)
                        # the value is there for the engine
                        sch[k], preds[k] = s, (p, False)
                        continue
                sch[k], preds[k] = s, (p, s.get("required", False))
        if not sch:
            sch[keys[0]], preds[keys[0]] = {"type": "string"}, (lambda v: True, False)
        sn = "schema_%d" % gi
        absent = rng.random() < 0.08
        if absent:
            # not there: records stay as they are
            M.ev("schema_absent")
        else:
            tv[sn] = sch
        unknown = rng.random() < 0.6 or bool(renamed)
        mode = rng.choice(["cerberus", "cerberus", "errors", "validate", "validate"])
        kwargs = {"allow_unknown": unknown} if not unknown or rng.random() < 0.3 else {}
        resname, errname, info = "valid", "", ""
        if mode == "errors":
            kwargs["add_errors"] = True
        if mode == "validate":
            if rng.random() < 0.5:
                resname = kwargs["result"] = "ok_%d" % gi
            if rng.random() < 0.6:
                errname = kwargs["errors"] = "errs"
            if rng.random() < 0.5:
                info = kwargs["info"] = "{%s} checked" % keys[0]
            rng.choice([0, 1])
        if rng.random() < 0.5:
            a, kw2 = [sn], kwargs
        else:
            a, kw2 = [], dict(kwargs, schema=sn)
        fn = "validate" if mode == "validate" else "cerberus"
        src = attr(rng, fn, a, kw2)
        at = "%s=%s" % (fn, gen.quoteattr(src)) if rng.random() < 0.6 else "functions=%s" % gen.quoteattr("%s(%s)" % (fn, src))
        t += '<group name="g%d*" %s>\n%s\n</group>\n' % (gi, at, group_src(rng, M, keys, kw, {}, ""))
        out = []
        for i in range(rng.randint(2, 6)):
            r = {}
            for j, (k, w) in enumerate(zip(keys, kw)):
                if j and rng.random() < 0.3:
                    continue
                r[k] = val(rng)
                rows.append("%s%s %s" % (" " if j else "", w, r[k]))
            bad = {k for k, (p, req) in preds.items() if (k in r and not p(r[k])) or (k not in r and req)}
            if not unknown:
                bad |= {k for k in r if k not in sch}
            ok = not bad
            if absent:
                out.append((r, None, None))
            elif mode == "cerberus":
                M.ev("cerberus_kept" if ok else "cerberus_dropped")
                if ok:
                    out.append((r, None, None))
            elif mode == "errors":
                out.append((r, "validation_errors" if bad else None, bad))
                M.ev("cerberus_kept")
            else:
                M.ev("validated")
                r[resname] = ok
                if info:
                    r["info"] = info.format(**r)
                if errname:
                    M.ev("validate_errors")
                out.append((r, errname or None, bad))
        if out:
            exp["g%d" % gi] = out
    res = M.parse(vars_tag(tv) + t, "\n".join(rows))
    M.true(isinstance(res, list) and len(res) == 1 and len(res[0]) == 1 and sorted(res[0][0]) == sorted(exp), "groups of validated records", got=res, expected=exp)
    for g, out in exp.items():
        got = res[0][0][g]
        M.true(len(got) == len(out), "number of validated records of %s" % g, got=got, expected=out)
        for x, (r, en, bad) in zip(got, out):
            if en:
                er = x.pop(en, None)
                M.true(isinstance(er, dict) and set(er) == bad and all(isinstance(v, list) and v for v in er.values()), "errors of a validated record", got=er, expected=bad, record=r)
            M.eq(x, r, "validated record", errors=bad)
    M.case((t, tuple(rows)), sample={"template": t})


KINDS = {"pipelines": (pipelines, 4800, 120000), "lists": (lists, 1920, 40000), "nested": (nested, 2400, 50000), "itemize": (itemize, 2400, 50000), "expand": (expand, 2400, 40000), "schema": (schema, 2400, 40000)}
ASSUME = ["functions that can drop a record are only attached to groups without children", "names expanded at the same level only, as documented"]
