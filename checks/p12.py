"""P12 - macros and custom functions are called exactly as documented."""
import copy
import sys
import types

import gen

RULE = ("templates with generated macro and registered functions attached to match variables, groups, inputs, outputs (of templates, groups and of result()), formatters, returners and getters, alone and in chains with built-in "
        "functions; every function reports each call with the data and arguments it got to a recorder. The recorded calls of every place are compared, one by one and in order, with the calls predicted by a reference that runs the same "
        "functions over the values written into the data, and the results with what the returns call for. Templates defining the same names differently are mixed in one parser. Non-trivial: some return altered or dropped data.")
NEED = {"replaced": 2048, "field_replaced": 576, "calls": 95380, "match_macro": 20859, "match_custom": 9369, "match_false": 1015, "match_fields": 7372, "match_replaced": 5978, "match_odd": 4016, "group_macro": 15824,
        "group_custom": 3332, "group_false": 933, "group_replaced": 6715, "input_macro": 5636, "input_custom": 3795, "input_replaced": 4369, "input_false": 698, "output_macro": 5108, "output_custom": 3443, "output_falsy": 1426,
        "returner_custom": 997, "formatter_custom": 831, "getter_custom": 1598, "group_output": 576, "result_output": 392, "same_name": 7789, "nested_template": 502, "api_macro": 587, "overridden_api_macro": 426, "kwargs": 4783,
        "with_ttp": 228, "several_inputs": 7919, "second_parse": 609, "extended": 585}

LOG = types.ModuleType("vplog")
LOG.calls = []
LOG.add = lambda uid, data, *rest: LOG.calls.append((uid, copy.deepcopy(data)) + rest)
sys.modules["vplog"] = LOG


class Fn:
    """a generated function: name in templates, unique id in the log, source text and the function for the reference"""

    def __init__(self, name, uid, body, kind, sig="data"):
        self.name, self.uid, self.kind = name, uid, kind
        rest = "" if sig == "data" else ", args, tuple(sorted(kwargs.items()))"
        self.src = "def %s(%s):\n    import vplog\n    vplog.add(%r, data%s)\n%s" % (name, sig, uid, rest, "".join("    %s\n" % b for b in body))
        ns = {}
        exec(self.src, ns)
        self.py = ns[name]


def match_body(rng, k):
    """(body, kind) of a match macro"""
    r = rng.choice(["none", "true", "cond", "cond", "upper", "suffix", "suffix", "fields", "fields", "fields_same", "number", "list", "tuple3", "one_tuple", "falsy", "tuple_list"])
    d = "d = data if isinstance(data, str) else repr(data)"
    b = {"none": ["pass"], "true": ["return True"], "cond": ["return 'q' not in str(data)"], "upper": [d, "return d.upper()"], "suffix": [d, "return d + '-%s'" % k],
         "fields": [d, "return d + '+', {'f_%s': d, 'g_%s': [1, {'a': d}]}" % (k, k)], "fields_same": [d, "return data, {'f_%s': 'const'}" % k], "number": ["return len(str(data))"],
         "list": [d, "return [d, d]"], "tuple3": ["return ('x', 'y', 'z')"], "one_tuple": ["return (str(data),)"], "falsy": ["return ''"], "tuple_list": ["return ('x', ['y'])"]}[r]
    return b, r


def cust_match_body(rng, k):
    r = rng.choice(["keep", "arg", "cond", "fields", "plain_fields", "true"])
    d = "d = data if isinstance(data, str) else repr(data)"
    b = {"keep": ["return data, None"], "true": ["return data, True"], "arg": [d, "return d + '.'.join(str(i) for i in args) + str(kwargs.get('sep', '')), None"], "cond": ["return data, 'q' not in str(data)"],
         "fields": [d, "return d + '^', {'new_field': {'cf_%s': d}}" % k], "plain_fields": [d, "return d, {'cf_%s': d + 'p'}" % k]}[r]
    return b, r


def ref_macro(fn, data):
    """(data, keep, fields) as documented"""
    r = fn.py(data)
    if r is True or r is None:
        return data, True, {}
    if r is False:
        return data, False, {}
    if isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], dict):
        return r[0], True, r[1]
    return r, True, {}


ARGS = [("", (), {}), ("'up'", ("up",), {}), ("\"a b\", 5", ("a b", 5), {}), ("'x', sep='; '", ("x",), {"sep": "; "}), ("sep=7, flag=True", (), {"sep": 7, "flag": True}), ("name", ("name",), {})]

BUILTIN = [("upper", str.upper), ("lower", str.lower), ("append(\"zz\")", lambda s: s + "zz"), ("prepend(\"p_\")", lambda s: "p_" + s), ("replace('a', 'b')", lambda s: s.replace("a", "b"))]


class Names:
    def __init__(self, rng):
        self.rng, self.used, self.n = rng, set(), 0

    def __call__(self, prefix="m"):
        while True:
            n = self.rng.choice(["zeb", "yak", "wom", "vix", "urs", "tok"]) + self.rng.choice(["_", "", "V"]) + gen.word(self.rng, 2, 4)
            if n not in self.used and n not in gen.RESERVED and not hasattr(str, n):
                self.used.add(n)
                return n

    def uid(self):
        self.n += 1
        return "u%d" % self.n


def chain(rng, M, nm, macros, api, allow_false, maxlen=4):
    """a chain of functions for one variable: template text and [(fn, mode, args, kwargs)]"""
    out, parts = [], []
    stable = True
    for _ in range(rng.randint(1, maxlen)):
        r = rng.random()
        if r < 0.5:
            while True:
                b, k = match_body(rng, nm.uid())
                if k in ("cond",) and not allow_false:
                    continue
                break
            f = Fn(nm(), nm.uid(), b, k)
            macros.append(f)
            parts.append(rng.choice(["macro(\"%s\")", "macro('%s')", "macro(%s)"]) % f.name)
            out.append(("macro", f))
            if k in ("number", "list", "tuple3", "one_tuple", "tuple_list"):
                stable = False
        elif r < 0.8:
            while True:
                b, k = cust_match_body(rng, nm.uid())
                if k == "cond" and not allow_false:
                    continue
                break
            f = Fn(nm(), nm.uid(), b, k, "data, *args, **kwargs")
            api.append((f, "match"))
            t, a, kw = rng.choice(ARGS)
            parts.append("%s(%s)" % (f.name, t) if t else rng.choice(["%s", "%s()"]) % f.name)
            out.append(("custom", f, a, kw))
        elif stable:
            t, fn = rng.choice(BUILTIN)
            parts.append(t)
            out.append(("builtin", fn))
    if not out:
        return chain(rng, M, nm, macros, api, allow_false, maxlen)
    return " | ".join(parts), out


def run_chain(ch, data, M):
    fields = {}
    for item in ch:
        if item[0] == "builtin":
            data = item[1](data)
        elif item[0] == "macro":
            M.ev("match_macro")
            k = item[1].kind
            data, keep, f = ref_macro(item[1], data)
            fields.update(f)
            if not keep:
                M.ev("match_false")
                return data, False, {}
            if k in ("upper", "suffix", "number", "list", "falsy"):
                M.ev("match_replaced")
            if k.startswith("fields"):
                M.ev("match_fields")
            if k in ("tuple3", "one_tuple", "tuple_list", "falsy"):
                M.ev("match_odd")
        else:
            M.ev("match_custom")
            if item[3]:
                M.ev("kwargs")
            data, flag = item[1].py(data, *item[2], **item[3])
            if flag is False:
                M.ev("match_false")
                return data, False, {}
            if isinstance(flag, dict):
                M.ev("match_fields")
                fields.update(flag.get("new_field", flag))
    return data, True, fields


def register(rng, M, p, api):
    for f, scope in api:
        name = f.name
        if rng.random() < 0.15:
            # replaced by the next function registered under the name
            M.ev("replaced")
            p.add_function(lambda data, *args, **kwargs: "REPLACED", scope=scope, name=name)
        if rng.random() < 0.3:
            # name given explicitly, other __name__
            fn = f.py
            ns = {}
            exec(f.src.replace("def %s(" % f.name, "def other_%s(" % f.name), ns)
            fn = ns["other_" + f.name]
            p.add_function(fn, scope=scope, name=name)
        else:
            p.add_function(f.py, scope=scope)


def macro_tags(rng, macros):
    """macro tags holding the functions, one or several per tag"""
    out, todo = "", list(macros)
    while todo:
        n = rng.randint(1, 3)
        out += "<macro>\n%s\n</macro>\n" % gen.escape("\n".join(f.src for f in todo[:n]))
        todo = todo[n:]
    return out


def compare_logs(M, got, want, what, by=None):
    """calls of every function one by one in order"""
    M.ev("calls", len(want))
    g, w = {}, {}
    for c in got:
        g.setdefault(by(c[0]) if by else c[0], []).append(c)
    for c in want:
        w.setdefault(by(c[0]) if by else c[0], []).append(c)
    for k in sorted(set(g) | set(w), key=str):
        M.eq(g.get(k, []), w.get(k, []), "%s: calls of %s" % (what, k))


def take():
    c = list(LOG.calls)
    LOG.calls.clear()
    return c


# ------------------------------------------------------------------ match variables
def case_match(rng, M):
    from ttp import ttp
    LOG.calls.clear()
    nm = Names(rng)
    macros, api = [], []
    ng = rng.randint(1, 2)
    groups = []
    body = ""
    place = {}
    for gi in range(ng):
        lines = []
        text = "<group name=\"g%d*\">\n" % gi
        for li in range(rng.randint(1, 3)):
            vs = []
            t = "%s%s" % ("" if li == 0 else " ", "key" + "ab"[gi] + "xyz"[li])
            nv = rng.randint(1, 2)
            for vi in range(nv):
                v = "v%d%d%d" % (gi, li, vi)
                if rng.random() < 0.8:
                    txt, ch = chain(rng, M, nm, macros, api, allow_false=vi == nv - 1)
                    if vi and rng.random() < 0.3:
                        # the field added has the name of a variable of the line that has its value already
                        k = nm.uid()
                        f = Fn(nm(), k, ["return data, {'%s': 'over-%s'}" % (vs[0][0], k)], "fields_same")
                        macros.append(f)
                        txt += " | macro('%s')" % f.name
                        ch.append(("macro", f))
                        M.ev("field_replaced")
                    t += " {{ %s | %s }}" % (v, txt)
                    for c in ch:
                        if c[0] != "builtin":
                            place[c[1].uid] = (gi, li)
                else:
                    ch = []
                    t += " {{ %s }}" % v
                vs.append((v, ch))
            lines.append(vs)
            text += t + "\n"
        groups.append(lines)
        body += text + "</group>\n"
    tags = macro_tags(rng, macros)
    tpl = tags + body if rng.random() < 0.5 else body + tags
    u = gen.Uniq(rng)
    nin = rng.choice([1, 1, 2, 3])
    if nin > 1:
        M.ev("several_inputs", nin)
    exp, want, datas = [], [], []
    dropped = 0
    for i in range(nin):
        data = "~ %d\n" % i
        res = {}
        perline = {}
        recs = [(gi, r) for gi in range(ng) for r in range(rng.randint(0, 3))]
        if rng.random() < 0.5:
            rng.shuffle(recs)
        for gi, _ in recs:
            rec = None
            for li, vs in enumerate(groups[gi]):
                if li and rng.random() < 0.3:
                    continue
                vals = [rng.choice(["", "q"]) + u().replace("=", "") for _ in vs]
                data += "%skey%s%s %s\n" % ("" if li == 0 else " ", "ab"[gi], "xyz"[li], " ".join(vals))
                out, ok, fields = {}, True, {}
                LOG.calls.clear()
                for (v, ch), val in zip(vs, vals):
                    d, ok, f = run_chain(ch, val, M)
                    if not ok:
                        break
                    out[v] = d
                    out.update(f)
                perline.setdefault((gi, li), []).extend(take())
                if li == 0:
                    if not ok:
                        dropped += 1
                        rec = None
                    else:
                        rec = out
                        res.setdefault("g%d" % gi, []).append(rec)
                elif rec is not None and ok:
                    for k, x in out.items():
                        rec.setdefault(k, x)
                elif not ok:
                    dropped += 1
        for k in sorted(perline):
            want += perline[k]
        exp.append(res)
        datas.append(data)
    M.note(template=tpl, data=datas, api=[f.src for f, _ in api])
    p = ttp()
    register(rng, M, p, api)
    p.add_template(tpl)
    for d in datas:
        p.add_input(d)
    LOG.calls.clear()
    p.parse(one=True)
    M.ev("parses")
    M.eq(p.result(), [exp], "results of match functions")
    compare_logs(M, take(), want, "match functions", by=lambda uid: place[uid])
    M.case((ng, nin, len(macros), len(api), dropped > 0), nontrivial=bool(want), sample=body, n=max(1, len(want) // 4))


# ------------------------------------------------------------------ groups
def group_body(rng, k):
    r = rng.choice(["none", "true", "cond", "add", "add", "new", "drop_key"])
    b = {"none": ["pass"], "true": ["return True"], "cond": ["return 'q' not in str(data.get('a'))"], "add": ["data = dict(data)", "data['m_%s'] = [data.get('a'), 1]" % k, "return data"],
         "new": ["return {'a': str(data.get('a')) + '-n', 'w_%s': sorted(data)}" % k], "drop_key": ["return {k: v for k, v in data.items() if k != 'b'}"]}[r]
    return b, r


def cust_group_body(rng, k):
    r = rng.choice(["keep", "cond", "arg", "true"])
    b = {"keep": ["return data, None"], "true": ["return data, True"], "cond": ["return data, 'q' not in str(data.get('a'))"], "arg": ["return dict(data, c_%s=list(args) + sorted(kwargs)), None" % k]}[r]
    return b, r


def group_attrs(rng, M, nm, macros, api, leaf=True):
    """XML attributes and the list of functions in order"""
    out, attrs = [], []
    style = rng.choice(["attrs", "functions", "functions"])

    def one_macro():
        while True:
            b, k = group_body(rng, nm.uid())
            if k == "cond" and not leaf:
                continue
            break
        f = Fn(nm(), nm.uid(), b, k)
        macros.append(f)
        return f

    def custom():
        while True:
            b, k = cust_group_body(rng, nm.uid())
            if k == "cond" and not leaf:
                continue
            break
        f = Fn(nm(), nm.uid(), b, k, "data, *args, **kwargs")
        api.append((f, "group"))
        return f

    for _ in range(1 if style == "attrs" and rng.random() < 0.5 else rng.randint(1, 3)):
        r = rng.random()
        if r < 0.6 and not (style == "attrs" and any(a[0] == "macro" for a in attrs)):
            fs = [one_macro() for _ in range(rng.choice([1, 1, 2, 3]) if rng.random() < 0.96 else rng.randint(8, 12))]
            out += [("macro", f) for f in fs]
            names = ", ".join(f.name for f in fs)
            if style == "functions":
                names = rng.choice(["'%s'" % names, names if rng.random() < 0.5 else ", ".join("'%s'" % f.name for f in fs)])
            attrs.append(("macro", names))
        elif r < 0.85:
            f = custom()
            t, a, kw = rng.choice(ARGS)
            if style == "attrs" and not t:
                t, a, kw = ARGS[1]
            if rng.random() < 0.5:
                t = t.replace('"', "'")
            out.append(("custom", f, a, kw))
            attrs.append((f.name, t))
        elif not any(a[0] == "del" for a in attrs):
            out.append(("del", "c"))
            attrs.append(("del", "c" if style == "attrs" else "'c'"))
    if style == "attrs":
        return "".join(" %s=%s" % (n, gen.quoteattr(t)) for n, t in attrs), out
    t = " | ".join("%s(%s)" % a for a in attrs)
    return " functions=%s" % gen.quoteattr(t), out


def run_group(fs, rec, M):
    for item in fs:
        if item[0] == "del":
            rec.pop("c", None)
        elif item[0] == "macro":
            M.ev("group_macro")
            r = item[1].py(copy.deepcopy(rec))
            if r is False:
                M.ev("group_false")
                return None
            if r is not None and r is not True:
                M.ev("group_replaced")
                rec = r
        else:
            M.ev("group_custom")
            if item[3]:
                M.ev("kwargs")
            rec, flag = item[1].py(rec, *item[2], **item[3])
            if flag is False:
                M.ev("group_false")
                return None
    return rec


def case_group(rng, M):
    from ttp import ttp
    LOG.calls.clear()
    nm = Names(rng)
    macros, api = [], []
    nested = rng.random() < 0.5
    glob_default = rng.random() < 0.3
    gp, fp = group_attrs(rng, M, nm, macros, api, leaf=not nested)
    gc, fc = group_attrs(rng, M, nm, macros, api)
    gs, fs = group_attrs(rng, M, nm, macros, api)
    dflt = ' default="None given"' if glob_default else ""
    body = "<group name=\"top*\"%s%s>\ntop {{ a }} {{ b }}\n val {{ c }}\n" % (dflt, gp)
    if nested:
        body += "<group name=\"kid*\"%s>\n kid {{ a }} {{ b }}\n  kval {{ c }}\n</group>\n" % gc
    body += "</group>\n<group name=\"sep*\"%s>\nsep {{ a }} {{ b }}\n sval {{ c }}\n</group>\n" % gs
    tags = macro_tags(rng, macros)
    tpl = tags + body if rng.random() < 0.5 else body + tags
    u = gen.Uniq(rng)
    nin = rng.choice([1, 1, 2, 3])
    if nin > 1:
        M.ev("several_inputs", nin)
    exp, datas = [], []
    want = {"top": [], "kid": [], "sep": []}
    place = {}
    for k, ff in (("top", fp), ("kid", fc), ("sep", fs)):
        for f in ff:
            if f[0] != "del":
                place[f[1].uid] = k

    def val():
        return rng.choice(["", "q"]) + u().replace("=", "")

    nd = 0
    for i in range(nin):
        res, data = {}, "~ %d\n" % i
        for j in range(rng.randint(1, 4)):
            # a group with defaults is reported without matches as well: not a matter of this check
            if rng.random() < 0.6 or (j == 0 and glob_default):
                rec = {"a": val(), "b": val()}
                data += "top %(a)s %(b)s\n" % rec
                if rng.random() < 0.6:
                    rec["c"] = val()
                    data += " val %(c)s\n" % rec
                elif glob_default:
                    rec["c"] = "None given"
                LOG.calls.clear()
                rec = run_group(fp, rec, M)
                want["top"] += take()
                if rec is None:
                    nd += 1
                else:
                    res.setdefault("top", []).append(rec)
                for _ in range(rng.choice([0, 1, 2]) if nested else 0):
                    kid = {"a": val(), "b": val()}
                    data += " kid %(a)s %(b)s\n" % kid
                    if rng.random() < 0.6:
                        kid["c"] = val()
                        data += "  kval %(c)s\n" % kid
                    LOG.calls.clear()
                    kid = run_group(fc, kid, M)
                    want["kid"] += take()
                    if kid is None:
                        nd += 1
                    else:
                        rec.setdefault("kid", []).append(kid)
            else:
                rec = {"a": val(), "b": val()}
                data += "sep %(a)s %(b)s\n" % rec
                if rng.random() < 0.6:
                    rec["c"] = val()
                    data += " sval %(c)s\n" % rec
                LOG.calls.clear()
                rec = run_group(fs, rec, M)
                want["sep"] += take()
                if rec is None:
                    nd += 1
                else:
                    res.setdefault("sep", []).append(rec)
        exp.append(res)
        datas.append(data)
    M.note(template=tpl, data=datas, api=[f.src for f, _ in api])
    p = ttp()
    register(rng, M, p, api)
    p.add_template(tpl)
    for d in datas:
        p.add_input(d)
    LOG.calls.clear()
    p.parse(one=True)
    M.ev("parses")
    got = p.result()
    M.eq(got, [exp], "results of group functions")
    compare_logs(M, take(), want["top"] + want["kid"] + want["sep"], "group functions", by=lambda uid: place[uid])
    M.case((nested, nin, gp.count("|"), nd > 0), nontrivial=True, sample=body, n=nin)


# ------------------------------------------------------------------ inputs, getters
def input_body(rng, k):
    r = rng.choice(["none", "true", "false", "replace", "replace", "insert", "empty"] if rng.random() < 0.5 else ["none", "true", "false", "replace", "replace", "insert"])
    b = {"none": ["pass"], "true": ["return True"], "false": ["return False"], "empty": ["return ''"], "replace": ["return data.replace('rec ', 'rec %s')" % k], "insert": ["return data.rstrip('\\n') + '\\nrec ins%s\\n\\n'" % k]}[r]
    return b, r


def cust_input_body(rng, k):
    r = rng.choice(["keep", "true", "arg", "false"])
    b = {"keep": ["return data, None"], "true": ["return data.replace('rec ', 'rec t'), True"], "arg": ["return data.replace('rec ', 'rec %s' + ''.join(str(a) for a in args).replace(' ', '')), None" % k],
         "false": ["return data, False"]}[r]
    return b, r


def norm(calls):
    """text of inputs: leading and trailing newlines are not part of what was given"""
    return [(c[0], c[1].strip("\n") if isinstance(c[1], str) else c[1]) + tuple(c[2:]) for c in calls]


def case_input(rng, M):
    from ttp import ttp
    LOG.calls.clear()
    nm = Names(rng)
    macros, api = [], []
    tags_i, inputs, exp_names = "", [], []
    ni = gen.several(rng, 1, 3, p=0.03)
    u = gen.Uniq(rng)
    getter = rng.random() < 0.5
    gf = None
    if getter:
        gf = Fn(nm(), "getter", ["return 'L%d/%s' % (data.count('rec '), name)"], "getter", "data, name")
        gf.src = gf.src.replace("vplog.add('getter', data, args, tuple(sorted(kwargs.items())))", "vplog.add('getter', data, name)")
        ns = {}
        exec(gf.src, ns)
        gf.py = ns[gf.name]
        gf.uid = "getter"
        api.append((gf, "variable"))
    datanames = []
    want, exp = [], []
    changed = 0
    later_parse = rng.random() < 0.3
    lazy = []
    place = {}
    for i in range(ni):
        fs, parts = [], []
        style = rng.choice(["attrs", "functions"])
        for _ in range(rng.randint(0, 3) if style == "functions" else rng.choice([0, 1, 1])):
            if rng.random() < 0.65:
                ms = []
                for _ in range(rng.choice([1, 1, 2])):
                    b, k = input_body(rng, nm.uid())
                    f = Fn(nm(), nm.uid(), b, k)
                    macros.append(f)
                    ms.append(f)
                t = ", ".join(f.name for f in ms)
                parts.append(("macro", t if style == "attrs" else "'%s'" % t))
                fs.append([("macro", f) for f in ms])
            else:
                b, k = cust_input_body(rng, nm.uid())
                f = Fn(nm(), nm.uid(), b, k, "data, *args, **kwargs")
                api.append((f, "input"))
                t, a, kw = rng.choice(ARGS[1:4]) if style == "attrs" else rng.choice(ARGS)
                parts.append((f.name, t.replace('"', "'")))
                fs.append([("custom", f, a, kw)])
        for blk in fs:
            for it in blk:
                place[it[1].uid] = i
        a = "".join(" %s=%s" % (n, gen.quoteattr(t)) for n, t in parts) if style == "attrs" else (" functions=%s" % gen.quoteattr(" | ".join("%s(%s)" % x for x in parts)) if parts else "")
        via = rng.choice(["text", "api", "files"])
        ntext = 1 if via == "text" else rng.randint(1, 3)
        texts = ["~ %d-%d\n" % (i, j) + "".join("rec %s\n" % u() for _ in range(rng.randint(1, 3))) for j in range(ntext)]
        name = "in%d" % i
        names = [None] * ntext
        if via == "text":
            tags_i += "<input name=\"%s\" load=\"text\"%s>\n%s</input>\n" % (name, a, gen.escape(texts[0]))
            names = ["text_data"]
        elif via == "files":
            for j, t in enumerate(texts):
                M.write("d%d/f%d.txt" % (i, j), t)
            url = M.scratch + "/d%d/" % i
            tags_i += "<input name=\"%s\" load=\"yaml\"%s>\nurl: \"%s\"\nextensions: [\"txt\"]\n</input>\n" % (name, a, url)
            names = [url + "f%d.txt" % j for j in range(ntext)]
        else:
            tags_i += "<input name=\"%s\"%s/>\n" % (name, a)
            lazy += [(name, t) for t in texts]
            names = ["text_data"] * ntext
        inputs.append((name, fs, texts, via, names))
    tags = macro_tags(rng, macros)
    var = "<vars name=\"vars\">\ngot = \"%s\"\n</vars>\n" % gf.name if getter else ""
    body = var + "<group name=\"g*\">\nrec {{ n }}\n</group>\n"
    tpl = (tags + tags_i + body) if rng.random() < 0.5 else (body + tags_i + tags)
    for name, fs, texts, via, names in inputs:
        for t, dn in zip(texts, names):
            d = "\n" + t + "\n\n"
            LOG.calls.clear()
            g = None
            if getter:
                g = gf.py(d, dn)
                M.ev("getter_custom")
            stop = False
            for blk in fs:
                if blk[0][0] == "macro":
                    for _, f in blk:
                        M.ev("input_macro")
                        r = f.py(d)
                        if r is False:
                            M.ev("input_false")
                            stop = True
                            break
                        if r is not None and r is not True:
                            M.ev("input_replaced")
                            changed += 1
                            d = r
                else:
                    _, f, a, kw = blk[0]
                    M.ev("input_custom")
                    d, flag = f.py(d, *a, **kw)
                    if flag is False:
                        M.ev("input_false")
                        stop = True
                if stop:
                    break
            want += take()
            rec = {"g": [{"n": ln.split(" ")[1]} for ln in d.split("\n") if ln.startswith("rec ")]}
            if not rec["g"]:
                M.ev("input_emptied")
                rec = {}
            elif getter:
                rec["vars"] = {"got": g}
            exp.append(rec)
    M.note(template=tpl, api=[f.src for f, _ in api], lazy=lazy)
    p = ttp()
    register(rng, M, p, api)
    p.add_template(tpl)
    for n, t in lazy:
        p.add_input(t, input_name=n)
    LOG.calls.clear()
    rounds = 2 if later_parse else 1
    for r in range(rounds):
        if r:
            M.ev("second_parse")
            p.clear_result()
            LOG.calls.clear()
        p.parse(one=True)
        M.ev("parses")
        srt = lambda l: sorted(l, key=lambda x: str(sorted(x.items(), key=str)) if isinstance(x, dict) else repr(x))  # noqa: E731
        # inputs with several items: order of directory listing is C13's matter, compare sorted
        M.eq(srt(p.result()[0]), srt(exp), "results of input functions")
        got, w = norm(take()), norm(want)
        M.ev("calls", len(w))
        M.eq(srt(got), srt(w), "calls of input functions")
    M.case((ni, changed > 0, getter, len(macros)), nontrivial=bool(want), sample=tags_i, n=len(exp))


# ------------------------------------------------------------------ outputs
def output_body(rng, k):
    r = rng.choice(["none", "wrap", "wrap", "falsy_list", "false", "true", "zero", "text", "count"])
    b = {"none": ["pass"], "wrap": ["return {'w_%s': data}" % k], "falsy_list": ["return []"], "false": ["return False"], "true": ["return True"], "zero": ["return 0"], "text": ["return str(type(data).__name__)"],
         "count": ["return [data, '%s']" % k]}[r]
    return b, r


def case_output(rng, M):
    from ttp import ttp
    LOG.calls.clear()
    nm = Names(rng)
    macros, api = [], []

    def outspec(scope):
        """attributes of an output and the processing"""
        steps, parts = [], []
        for _ in range(gen.several(rng, 1, 3, (8, 12), 0.03)):
            if rng.random() < 0.65:
                b, k = output_body(rng, nm.uid())
                f = Fn(nm(), nm.uid(), b, k)
                macros.append(f)
                parts.append("macro('%s')" % f.name)
                steps.append(("macro", f))
            else:
                k = nm.uid()
                f = Fn(nm(), nm.uid(), ["return {'c_%s': [data, list(args), sorted(kwargs.items())]}" % k], "c", "data, *args, **kwargs")
                api.append((f, "output"))
                t, a, kw = rng.choice(ARGS)
                parts.append("%s(%s)" % (f.name, t.replace('"', "'")))
                steps.append(("custom", f, a, kw))
        attrs = {"functions": " | ".join(parts)}
        if len(parts) == 1 and parts[0].startswith("macro") and rng.random() < 0.5:
            attrs = {"macro": steps[0][1].name}
        fmt = ret = None
        if rng.random() < 0.35:
            fmt = Fn(nm(), nm.uid(), ["return {'fmt': data, 'kw': kwargs.get('extra')}"], "fmt", "data, **kwargs")
            fmt.src = fmt.src.replace("args, tuple(sorted(kwargs.items()))", "kwargs.get('extra')")
            refn(fmt)
            api.append((fmt, "formatters"))
            attrs["format"] = fmt.name
            if rng.random() < 0.6:
                attrs["extra"] = "E%d" % rng.randint(0, 9)
        if rng.random() < 0.4:
            ret = Fn(nm(), nm.uid(), ["return 'ignored'"], "ret", "data, **kwargs")
            ret.src = ret.src.replace("args, tuple(sorted(kwargs.items()))", "kwargs.get('extra')")
            refn(ret)
            api.append((ret, "returners"))
            attrs["returner"] = rng.choice(["self, %s", "%s, self", "%s"]) % ret.name
            if rng.random() < 0.6:
                attrs.setdefault("extra", "E%d" % rng.randint(0, 9))
        return attrs, steps, fmt, ret

    def refn(f):
        ns = {}
        exec(f.src, ns)
        f.py = ns[f.name]

    def run(spec, data):
        attrs, steps, fmt, ret = spec
        orig = data
        for s in steps:
            if s[0] == "macro":
                M.ev("output_macro")
                r = s[1].py(data)
                if r is not None:
                    if not r or r is True:
                        M.ev("output_falsy")
                    data = r
            else:
                M.ev("output_custom")
                if s[3]:
                    M.ev("kwargs")
                data = s[1].py(data, *s[2], **s[3])
        kw = {k: v for k, v in attrs.items() if k == "extra"}
        if fmt:
            M.ev("formatter_custom")
            data = fmt.py(data, **kw)
        if ret:
            M.ev("returner_custom")
            ret.py(data, **kw)
            if "self" not in attrs["returner"]:
                return orig
        return data

    def tag(spec):
        return "<output" + "".join(" %s=%s" % (k, gen.quoteattr(v)) for k, v in spec[0].items()) + "/>\n"

    outs = [outspec("t") for _ in range(rng.choice([0, 1, 1, 2, 3]) if rng.random() < 0.96 else rng.randint(8, 12))]
    gout = outspec("g") if rng.random() < 0.45 else None
    rout = outspec("r") if rng.random() < 0.4 else None
    if not outs and not gout and not rout:
        outs = [outspec("t")]
    body = "<group name=\"ha*\">\nha {{ x }}\n</group>\n"
    if gout:
        body += "<group name=\"g*\" output=\"gout\">\nrec {{ n }}\n</group>\n<output name=\"gout\"" + tag(gout)[7:]
    else:
        body += "<group name=\"g*\">\nrec {{ n }}\n</group>\n"
    tags = macro_tags(rng, macros)
    obody = "".join(tag(o) for o in outs)
    tpl = (tags + obody + body) if rng.random() < 0.5 else (body + obody + tags)
    u = gen.Uniq(rng)
    nin = rng.choice([1, 1, 2])
    mode = rng.choice(["per_input", "per_template"]) if not gout else "per_input"
    if mode == "per_template":
        tpl = "<template results=\"per_template\">\n%s</template>\n" % tpl
    items, datas = [], []
    for i in range(nin):
        ns = [u() for _ in range(rng.randint(1, 3))]
        xs = [u() for _ in range(rng.randint(1, 2))]
        datas.append("~ %d\n" % i + "".join("rec %s\n" % n for n in ns) + "".join("ha %s\n" % n for n in xs))
        items.append((ns, xs))
    M.note(template=tpl, data=datas, api=[f.src for f, _ in api], rout=repr(rout and rout[0]))
    # reference
    LOG.calls.clear()
    base = []
    for ns, xs in items:
        g = {"g": [{"n": n} for n in ns]}
        h = {"ha": [{"x": x} for x in xs]}
        if gout:
            M.ev("group_output")
            base.append([h, run(gout, g)])
        else:
            base.append(dict(g, **h))
    if mode == "per_template":
        base = {"g": sum((b["g"] for b in base), []), "ha": sum((b["ha"] for b in base), [])}
    for o in outs:
        base = run(o, base)
    want = take()
    if rout:
        M.ev("result_output")
        final = run(rout, base)
        want_r = take()
    p = ttp()
    register(rng, M, p, api)
    p.add_template(tpl)
    for d in datas:
        p.add_input(d)
    LOG.calls.clear()
    p.parse(one=True)
    M.ev("parses")
    got = take()
    M.eq(p.result(), [base], "results of output functions")
    M.true(not take(), "reading results calls no function")
    M.ev("calls", len(want))
    M.eq(got, want, "calls of output functions")
    if rout:
        kw = dict(rout[0])
        if rng.random() < 0.5 and "returner" in kw and "," in kw["returner"]:
            kw["returner"] = kw["returner"]
        for _ in range(rng.choice([1, 2])):
            got = p.result(**kw)
            M.eq(got, [final], "result() with output attributes")
            got = take()
            M.ev("calls", len(want_r))
            M.eq(got, want_r, "calls of output functions of result()")
        M.eq(p.result(), [base], "results after formatting")
    M.case((len(outs), bool(gout), bool(rout), mode, nin), nontrivial=True, sample=obody, n=nin + len(outs))


# ------------------------------------------------------------------ several templates
def case_templates(rng, M):
    """templates with macros of the same names, registered functions, nested and extended templates"""
    from ttp import ttp
    LOG.calls.clear()
    nm = Names(rng)
    names = {s: nm() for s in ("match", "group", "input", "output")}
    apin = {s: nm() for s in ("match", "group", "macro", "input", "output")}
    nt = rng.randint(2, 4)
    api_on = rng.random() < 0.6
    apiname_clash = api_on and rng.random() < 0.5
    expect = []
    tpls = []
    datas = {}
    defines_all = []
    with_ttp = rng.random() < 0.4
    api_clash = rng.choice(["match", "group"])
    for t in range(nt):
        scopes = [s for s in names if rng.random() < 0.65]
        fs = {}
        for s in scopes:
            b = {"match": ["return data + '-t%d'" % t], "group": ["return dict(data, who='t%d')" % t], "input": ["return data.replace('rec ', 'rec t%d')" % t], "output": ["return {'o': data, 'by': 't%d'}" % t]}[s]
            fs[s] = Fn(names[s], "%s@%d" % (s, t), b, s)
            M.ev("same_name")
        if apiname_clash and rng.random() < 0.5:
            M.ev("overridden_api_macro")
            fs["clash"] = Fn(apin["macro"], "clash@%d" % t, ["return 'own%d:' + data" % t], "clash")
        defines_all.append(fs)
        # a template refers to the names whether or not it defines them: undefined ones do nothing
        refers = {s for s in names if s in fs or rng.random() < 0.4}
        chain_ = "n"
        if "match" in refers:
            chain_ += " | macro('%s')" % names["match"]
        if api_on:
            chain_ += " | macro('%s') | %s('k%d')" % (apin["macro"], apin["match"], t)
        ga = ""
        if "group" in refers:
            ga += " macro=\"%s\"" % names["group"]
        if api_on:
            ga += " %s=\"'g%d'\"" % (apin["group"], t)
        ia = ""
        if "input" in refers:
            ia += " macro=\"%s\"" % names["input"]
        if api_on:
            ia += " %s=\"'i%d'\"" % (apin["input"], t)
        oa = ""
        if "output" in refers:
            oa += " macro=\"%s\"" % names["output"]
        if api_on:
            oa += " %s=\"'o%d'\"" % (apin["output"], t)
        mac = macro_tags(rng, fs.values())
        grp = "<group name=\"g*\"%s>\nrec {{ %s }}\n</group>\n" % (ga, chain_)
        if rng.random() < 0.2:
            M.ev("extended")
            f = M.write("ext%d.txt" % t, grp + (mac if rng.random() < 0.5 else ""))
            ext = "<extend template=\"%s\"/>\n" % f
            b = (mac if mac not in open(f).read() or not mac else "") + "<input name=\"in\"%s/>\n" % ia + ext + ("<output%s/>\n" % oa if oa else "")
        else:
            b = mac + "<input name=\"in\"%s/>\n" % ia + grp + ("<output%s/>\n" % oa if oa else "")
        tpls.append(b)
        expect.append((fs, refers))
    # the API functions
    api = []
    if api_on:
        M.ev("api_macro")
        defs = {"match": Fn(apin["match"], "amatch", ["return data + '/' + args[0], None"], "x", "data, *args, **kwargs"), "group": Fn(apin["group"], "agroup", ["return dict(data, ga=args[0]), None"], "x", "data, *args, **kwargs"),
                "macro": Fn(apin["macro"], "amacro", ["return 'api:' + data"], "x"), "input": Fn(apin["input"], "ainput", ["return data.replace('rec ', 'rec i'), None"], "x", "data, *args, **kwargs"),
                "output": Fn(apin["output"], "aoutput", ["return [data, args[0]]"], "x", "data, *args, **kwargs")}
        if with_ttp:
            M.ev("with_ttp")
            f = defs["match"]
            f.src = f.src.replace("    return data", "    data = data + ('!' if 'macro' in _ttp_ and 'match' in _ttp_ else '?')\n    return data")
            ns = {"_ttp_": {"macro": {}, "match": {}}}
            exec(f.src, ns)
            f.py = ns[f.name]
        api = list(defs.items())
    nested = rng.random() < 0.5
    p = ttp()
    for s, f in api:
        if rng.random() < 0.15:
            M.ev("replaced")
            p.add_function(lambda data, *args, **kwargs: "REPLACED", scope=s, name=f.name)
        if with_ttp and s == "match":
            ns = {}
            exec(f.src, ns)
            p.add_function(ns[f.name], scope=s, add_ttp=True)
        else:
            p.add_function(f.py, scope=s)
    if nested:
        M.ev("nested_template")
        whole = "".join("<template name=\"t%d\">\n%s</template>\n" % (t, b) for t, b in enumerate(tpls))
        if rng.random() < 0.3:
            whole = "<template>\n%s</template>\n" % whole
        M.note(template=whole)
        p.add_template(whole)
    else:
        M.note(templates=tpls)
        for t, b in enumerate(tpls):
            p.add_template(b, template_name="t%d" % t)
    u = gen.Uniq(rng)
    texts = {}
    nin = rng.randint(1, 2)
    for t in range(nt):
        texts[t] = []
        for i in range(nin):
            d = "~ %d %d\n" % (t, i) + "".join("rec %s\n" % u() for _ in range(rng.randint(1, 2)))
            texts[t].append(d)
    order = list(range(nt))
    rng.shuffle(order)
    for t in order:
        for d in texts[t]:
            p.add_input(d, input_name="in", template_name="t%d" % t)
    M.note(data=texts, api=[f.src for _, f in api])
    M.ev("several_inputs", nin * nt)
    # reference
    LOG.calls.clear()
    A = dict(api)
    exp = []
    for t in range(nt):
        fs, refers = expect[t]
        res = []
        for d in texts[t]:
            d = "\n" + d + "\n\n"
            if "input" in refers and "input" in fs:
                M.ev("input_macro")
                M.ev("input_replaced")
                d = fs["input"].py(d)
            if api_on:
                M.ev("input_custom")
                d, _ = A["input"].py(d, "i%d" % t)
            ms = [ln.split(" ")[1] for ln in d.split("\n") if ln.startswith("rec ")]
            recs = []
            for n in ms:
                if "match" in refers and "match" in fs:
                    M.ev("match_macro")
                    n = fs["match"].py(n)
                if api_on:
                    n = (fs["clash"] if "clash" in fs else A["macro"]).py(n)
                    n, _ = A["match"].py(n, "k%d" % t)
                recs.append({"n": n})
            for r in range(len(recs)):
                if "group" in refers and "group" in fs:
                    M.ev("group_macro")
                    recs[r] = fs["group"].py(recs[r])
                if api_on:
                    recs[r], _ = A["group"].py(recs[r], "g%d" % t)
            res.append({"g": recs})
        if "output" in refers and "output" in fs:
            M.ev("output_macro")
            res = fs["output"].py(res)
        if api_on:
            M.ev("output_custom")
            res = A["output"].py(res, "o%d" % t)
        exp.append(res)
    want = norm(take())
    rounds = rng.choice([1, 1, 2])
    for r in range(rounds):
        if r:
            M.ev("second_parse")
            p.clear_result()
            take()
        p.parse(one=True)
        M.ev("parses")
        M.eq(p.result(), exp, "results of templates with own functions")
        compare_logs(M, norm(take()), want, "functions of several templates")
    # one more template loaded after a parse still gets the registered functions
    if api_on and rng.random() < 0.5:
        t = nt
        p.add_template("<group name=\"g*\">\nrec {{ n | macro('%s') | %s('late') }}\n</group>\n" % (apin["macro"], apin["match"]), template_name="late")
        p.add_input("~ late\nrec zz\n", template_name="late")
        p.clear_result()
        p.parse(one=True)
        n, _ = A["match"].py(A["macro"].py("zz"), "late")
        take()
        M.eq(p.result()[-1], [{"g": [{"n": n}]}], "functions in template loaded after a parse")
        M.eq(p.result()[:-1], exp, "results of earlier templates after one more was loaded")
    M.case((nt, api_on, nested, apiname_clash, with_ttp, rounds), nontrivial=True, sample=tpls[0], n=nt)


KINDS = {"match": (case_match, 4000, 60000), "group": (case_group, 3000, 50000), "input": (case_input, 2500, 40000), "output": (case_output, 2500, 40000), "templates": (case_templates, 2500, 40000)}
