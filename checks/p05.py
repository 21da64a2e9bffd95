"""P05 - filters keep and drop exactly what their condition says."""
import ipaddress
import re

import gen

RULE = ("flat and nested templates with chains of 0-3 match conditions on start, inner and multi-variable lines, and chains of 1-3 group conditions (attributes, chain, functions, chain "
        "variables), over values on both sides of each boundary, with record-level expectations from predicates written here. Non-trivial: at least one condition was true for one record "
        "and false for another in the case.")
NEED = {"late_lines": 5553, "late_dropped": 2453, "empty_var": 232, "alternative_taken": 5706, "plain_taken": 352, "start_dropped": 39972, "line_dropped": 36013, "line_kept": 9368, "group_dropped": 10676, "group_kept": 6005,
        "children_dropped": 12321, "chained": 7724, "args_from_vars": 4239, "cond_both_ways": 7639, "defaults_present": 6274, "number_conditions": 214}

WORDS = ["Vlan10", "Vlan", "vlan10", "GigabitEthernet0/1", "Gi1", "mgmt", "mgmt-vrf", "a.b", "axb", "10", "9", "11", "010", "100", "-10", "1e1", "0", "99999999999999999999", "up", "UP", "upd", "",
         "10.0.0.1", "10.0.0.1/24", "10.0.1.1", "10.0.5.1/16", "10.1.0.1/8", "192.168.1.5/24", "192.168.0.0/31", "0.0.0.0/0", "9.255.255.255/7", "11.0.0.1/7", "2001:db8:5::1/48", "2001:db8::1/16", "::1", "192.168.1.1/32", "10.0.0.256", "2001:db8::1", "fe80::1/64", "1.2.3", "x", "xx", "none", "None", "True", "(a)", "a+b", "$5", "\u00b2", "\u0663", "\u00e9"]
WORDS = [w for w in WORDS if w]
RES = ["Vlan", "^V", r"\d+", r"\d$", "[a-z]+", "a.b", r"a\.b", "up|UP", "1", "Gi.*1", "(?i)VLAN", r"\(a\)", "x{2}", "e", "mgmt"]
SUBS = ["Vlan", "1", "10", "a", "up", ".", "x", "mgmt", "+", "0/", "(a", "$", "e", ":"]


def isdigit(v):
    return v.isdigit()


def num(v):
    return int(v) if v.isdecimal() else None


def ipok(v, ver=None):
    try:
        i = ipaddress.ip_interface(v)
    except ValueError:
        return False
    return ver is None or i.version == ver


def in_net(v, p):
    i, n = ipaddress.ip_interface(v), ipaddress.ip_network(p)
    if i.version != n.version:
        return False
    m = i.network
    return int(m.network_address) <= int(n.broadcast_address) and int(n.network_address) <= int(m.broadcast_address)


def q(s):
    """argument text of a string"""
    return "'%s'" % s.replace("\\", "\\\\").replace("'", "\\'") if "\\" not in s else "r'%s'" % s


# name -> function(rng) giving (args, predicate)
def c_re(name, fn):
    def make(rng):
        r = rng.choice(RES)
        if r.startswith("(?i)") and "starts" in name:
            r = "[Vv]"
        if "|" in r and ("start" in name or "end" in name):
            r = "(?:%s)" % r
        return [r], lambda v: fn(r, v)
    return make


CONDS = {
    "exclude": lambda rng: (lambda s: ([s], lambda v: v.find(s) < 0))(rng.choice(SUBS)),
    "contains": lambda rng: (lambda ss: (ss, lambda v: any(v.find(s) >= 0 for s in ss)))(rng.sample(SUBS, rng.choice([1, 1, 2, 3]))),
    "equal": lambda rng: (lambda s: ([s], lambda v: v == s))(rng.choice(WORDS)),
    "notequal": lambda rng: (lambda s: ([s], lambda v: v != s))(rng.choice(WORDS)),
    "isdigit": lambda rng: ([], isdigit),
    "notdigit": lambda rng: ([], lambda v: not isdigit(v)),
    "greaterthan": lambda rng: (lambda s: ([s], lambda v: num(v) is not None and num(v) > int(s)))(rng.choice(["9", "10", "11", "0", "99"])),
    "lessthan": lambda rng: (lambda s: ([s], lambda v: num(v) is not None and num(v) < int(s)))(rng.choice(["9", "10", "11", "0", "101"])),
    "startswith_re": c_re("startswith_re", lambda r, v: re.match(r, v) is not None),
    "endswith_re": c_re("endswith_re", lambda r, v: re.search("(?:%s)$" % r, v) is not None if "(?i)" not in r else v.lower().endswith("vlan")),
    "contains_re": c_re("contains_re", lambda r, v: re.search(r, v) is not None),
    "notstartswith_re": c_re("notstartswith_re", lambda r, v: re.match(r, v) is None),
    "notendswith_re": c_re("notendswith_re", lambda r, v: re.search("(?:%s)$" % r, v) is None if "(?i)" not in r else not v.lower().endswith("vlan")),
    "exclude_re": c_re("exclude_re", lambda r, v: re.search(r, v) is None),
    "is_ip": lambda rng: (lambda a: (a, lambda v: ipok(v, {"ipv4": 4, "ipv6": 6}.get(a[0] if a else None))))(rng.choice([[], [], ["ipv4"], ["ipv6"]])),
    "void": lambda rng: ([], lambda v: False),
    "startswith": lambda rng: (lambda s: ([s], lambda v: v[:len(s)] == s))(rng.choice(SUBS)),
    "endswith": lambda rng: (lambda s: ([s], lambda v: v[len(v) - len(s):] == s if len(s) <= len(v) else False))(rng.choice(SUBS)),
    "isalpha": lambda rng: ([], lambda v: all(ch.isalpha() for ch in v)),
    "islower": lambda rng: ([], lambda v: v == v.lower() and v != v.upper()),
    "macro": lambda rng: (lambda n: (["m_%s" % n], MACROS[n]))(rng.choice(sorted(MACROS))),
    "cidr_match": lambda rng: (lambda p: ([p], lambda v: in_net(v, p)))(rng.choice(["10.0.0.0/24", "10.0.0.0/8", "0.0.0.0/0", "192.168.1.1/32", "2001:db8::/32", "fe80::/10", "10.0.0.128/25", "10.0.0.0/30", "192.168.1.0/31", "2001:db8:5::/64", "::/0", "2001:db8::1/128", "2001:db8::/127", "fe80::/126", "2001:db8::8000:0:0:0/65", "2001:db8::/65", "::/100", "::1/128",
                                                                                    "10.0.%d.0/%d" % (rng.randrange(0, 16) * 16, rng.choice([20, 21, 22, 24]))])),
}
MACROS = {"has1": lambda v: "1" in v, "long": lambda v: len(v) > 4, "always": lambda v: True, "none": lambda v: True}
MACRO_TEXT = """<macro>
def m_has1(data):
    return "1" in data

def m_long(data):
    if not len(data) &gt; 4:
        return False

def m_always(data):
    return True

def m_none(data):
    return None
</macro>
"""
VAR_OK = {"exclude", "contains", "equal", "notequal", "startswith_re", "endswith_re", "contains_re", "notstartswith_re", "notendswith_re", "exclude_re", "cidr_match"}
IPS = [w for w in WORDS if ipok(w)]


class Chain:
    """match conditions of one variable"""

    def __init__(self, rng, M, tvars, names, n=None):
        self.text, self.preds, self.ip_only, self.near = "", [], False, []
        long = n is None and rng.random() < 0.03
        n = rng.randint(6, 12) if long else rng.choice([0, 1, 1, 2, 3]) if n is None else n
        if n > 1:
            M.ev("chained")
        for i in range(n):
            name = rng.choice(sorted(CONDS) if not long or i == n - 1 else ["exclude", "notequal", "notstartswith_re", "exclude_re"])
            if name == "void" and rng.random() < 0.8:
                name = "contains"
            args, pred = CONDS[name](rng)
            if name in ("contains", "notequal", "startswith_re") and rng.random() < 0.06:
                # variable with empty content: true for any value
                args, pred = [""], lambda v: True
                M.ev("empty_var")
            self.near += [a for a in args]
            if name == "cidr_match":
                self.ip_only = True
            shown = []
            for a in args:
                # pipe character is documented as not usable inline
                if name in VAR_OK and (rng.random() < 0.25 or "|" in a or not a):
                    w = names.pop()
                    tvars[w] = a
                    shown.append(rng.choice(["'%s'" % w, w]))
                    M.ev("args_from_vars")
                else:
                    shown.append(q(a))
            self.text += rng.choice([" | ", "|", " |"]) + name + ("(%s)" % ", ".join(shown) if shown or rng.random() < 0.1 else "")
            self.preds.append(pred)
        self.seen = set()

    def value(self, rng):
        if self.ip_only:
            return rng.choice(IPS)
        pool = [w for w in self.near if re.fullmatch(r"\S+", w) and not set(w) & set("\\^|[?*{")]
        r = rng.random()
        if pool and r < 0.4:
            w = rng.choice(pool)
            return rng.choice([w, w, w + "1", "x" + w, w + "x", w[:-1] or w, w.upper(), w.swapcase(), w + ".", w + ",", w + ":", "-" + w, '"' + w + '"', w + w])
        w = rng.choice(WORDS)
        return w if r < 0.9 else w + rng.choice([".", ",", ";", "!", "-", "\""])

    def ok(self, v):
        r = all(p(v) for p in self.preds)
        if self.preds:
            self.seen.add(r)
        return r


def vars_tag(tvars, rng):
    if not tvars:
        return ""
    return "<vars>\n" + "".join("%s = %r\n" % kv for kv in tvars.items()) + "</vars>\n"


def match_conditions(rng, M):
    names, kws = gen.words(rng, 60), gen.tokens(rng, 14)
    tvars, chains = {}, []
    uniq = gen.Uniq(rng)

    def chain(n=None):
        c = Chain(rng, M, tvars, names, n)
        chains.append(c)
        return c

    start = [("id", chain())] + ([("st", chain())] if rng.random() < 0.3 else [])
    lines = []
    for i in range(rng.randint(1, 3)):
        kw = kws.pop()
        lines.append((kw, [("v%d_%d" % (i, j), chain()) for j in range(rng.choice([1, 1, 2]))]))
    child = rng.random() < 0.5
    if child:
        ckw, cline = kws.pop(), kws.pop()
        cstart = ("cid", chain())
        cvar = ("cv", chain())
    kw0 = kws.pop()

    def tline(indent, kw, vs):
        return indent + kw + "".join(" {{ %s%s }}" % (n, c.text) for n, c in vs) + "\n"

    t = '<group name="g*">\n' + tline("", kw0, start) + "".join(tline(" ", kw, vs) for kw, vs in lines)
    if child:
        t += '<group name="c*">\n' + tline("  ", ckw, [cstart]) + tline("   ", cline, [cvar]) + "</group>\n"
    t += "</group>"
    t = vars_tag(tvars, rng) + MACRO_TEXT + t
    rows, exp = [], []

    def draw(vs):
        vals = [(n, c, c.value(rng)) for n, c in vs]
        return vals, all([c.ok(v) for n, c, v in vals])

    for _ in range(rng.randint(2, 10)):
        vals, ok = draw(start)
        rows.append(" ".join([kw0] + [v for _, _, v in vals]))
        rec = {n: v for n, _, v in vals}
        M.ev("start_kept" if ok else "start_dropped")
        own = lines[:]
        rng.shuffle(own)
        for kw, vs in own:
            if rng.random() < 0.75:
                lv, lok = draw(vs)
                rows.append(" " + " ".join([kw] + [v for _, _, v in lv]))
                if lok:
                    rec.update({n: v for n, _, v in lv})
                M.ev("line_kept" if lok else "line_dropped")
        if child:
            for _ in range(rng.choice([0, 1, 2, 3])):
                cv, cok = draw([cstart])
                rows.append("  %s %s" % (ckw, cv[0][2]))
                crec = {"cid": cv[0][2]}
                if rng.random() < 0.7:
                    v2, ok2 = draw([cvar])
                    rows.append("   %s %s" % (cline, v2[0][2]))
                    if ok2:
                        crec["cv"] = v2[0][2]
                if cok:
                    rec.setdefault("c", []).append(crec)
                if not ok or not cok:
                    M.ev("children_dropped")
        if ok:
            exp.append(rec)
    res = M.parse(t, "\n".join(rows))
    M.eq(res, [[{"g": exp} if exp else {}]], "match conditions")
    both = sum(1 for c in chains if len(c.seen) == 2)
    M.ev("cond_both_ways", both)
    M.case((t, tuple(rows)), nontrivial=both > 0)


# ------------------------------------------------------------ group conditions
def g_conds(rng, fields, dflt, tvars, names, M):
    """(attribute or function name, argument list, predicate over (record, matched keys))"""
    name = rng.choice(["contains", "contains", "containsall", "containsall", "exclude", "excludeall", "equal", "contains_val", "exclude_val", "macro", "void"])
    ks = rng.sample(fields, rng.choice([1, 1, 2, min(3, len(fields))]))
    if name == "void" and rng.random() < 0.8:
        name = "contains"
    if name == "contains":
        return name, ks, lambda r, m: bool(set(ks) & m)
    if name == "containsall":
        return name, ks, lambda r, m: set(ks) <= m
    if name == "exclude":
        return name, ks, lambda r, m: not set(ks) & m
    if name == "excludeall":
        return name, ks, lambda r, m: not set(ks) <= m
    if name == "void":
        return name, [], lambda r, m: False
    if name == "macro":
        return name, ["gm_" + ks[0]], lambda r, m: ks[0] in r
    k = ks[0]
    v = rng.choice(VALS)
    if name != "contains_val" and rng.random() < 0.25:
        # number, equal to numbers only
        v = rng.choice([10, 100])
        M.ev("number_conditions")
    shown = v
    if rng.random() < 0.25:
        shown = names.pop()
        tvars[shown] = v
        M.ev("args_from_vars")
    if name == "equal":
        return name, [k, shown], lambda r, m: r.get(k) == v
    if name == "contains_val":
        return name, [k, shown], lambda r, m: k in r and v in str(r[k])
    return name, [k, shown], lambda r, m: not (k in r and r[k] == v)


def num_q(name, args):
    """unquoted digits are numbers"""
    return [str(a) if isinstance(a, int) else "'%s'" % a if a.isdigit() and name != "contains_val" else a for a in args]


VALS = ["up", "down", "upper", "10", "100", "Vlan", "Vlan1", "trunk"]


def group_conditions(rng, M):
    names, kws = gen.words(rng, 40), gen.tokens(rng, 12)
    uniq = gen.Uniq(rng)
    nf = rng.randint(2, 4)
    fields = ["id"] + [names.pop() for _ in range(nf)]
    dflt = {f: "dflt_" + f for f in fields[1:] if rng.random() < 0.25}
    tvars = {}
    conds = [g_conds(rng, fields, dflt, tvars, names, M) for _ in range(rng.choice([1, 1, 2, 3]))]
    if len(conds) > 1:
        M.ev("chained")
    # conditions by attributes must have different names
    use_attr = len({c[0] for c in conds}) == len(conds) and rng.random() < 0.5
    if use_attr:
        attrs = "".join(' %s="%s"' % (n, rng.choice([", ", ","]).join(num_q(n, a))) for n, a, _ in conds)
    else:
        fs = []
        for n, a, _ in conds:
            quote = rng.choice(["'", ""])
            if any(isinstance(x, int) for x in a):
                quote = ""
            fs.append("%s(%s)" % (n, ", ".join(quote + x + quote for x in a) if quote else ", ".join(num_q(n, a))) if a else rng.choice([n, n + "()"]))
        form = rng.choice(["chain", "functions", "var", "varlist"])
        if form == "var":
            w = names.pop()
            tvars[w] = " | ".join(fs)
            attrs = ' %s="%s"' % (rng.choice(["chain", "functions"]), w)
        elif form == "varlist":
            w = names.pop()
            tvars[w] = fs
            attrs = ' %s="%s"' % (rng.choice(["chain", "functions"]), w)
        else:
            attrs = ' %s="%s"' % (form, rng.choice([" | ", "|"]).join(fs))
    nested = rng.random() < 0.5
    gname = "leaf*" if nested else "g*"
    ints = {f for f in fields[1:] if f not in dflt and rng.random() < 0.3}
    body = "".join("  %s {{ %s%s%s }}\n" % (kws[i + 2], f, " | to_int" if f in ints else "", " | default('%s')" % dflt[f] if f in dflt else "") for i, f in enumerate(fields[1:]))
    t = '<group name="%s"%s>\n %s {{ id }}\n%s</group>\n' % (gname, attrs, kws[0], body)
    other = kws[-1]
    if nested:
        t = '<group name="top*">\n%s {{ tid }}\n%s</group>' % (kws[1], t)
    # a bystander group must see nothing of the filters
    t += '<group name="by*">\n%s {{ bid }}\n</group>' % other
    macros = "<macro>\n" + "".join("def gm_%s(data):\n    return '%s' in data\n\n" % (f, f) for f in fields) + "</macro>\n"
    t = vars_tag(tvars, rng) + macros + t
    rows, exp, by, seen = [], [], [], [set() for _ in conds]
    tops = []

    def leaf():
        rec = {"id": rng.choice(VALS + [uniq()])}
        rows.append(" %s %s" % (kws[0], rec["id"]))
        for i, f in enumerate(fields[1:]):
            if rng.random() < 0.5:
                rec[f] = rng.choice(VALS + [uniq()] + (["10", "100", "010"] if f in ints else []))
                rows.append("  %s %s" % (kws[i + 2], rec[f]))
                if f in ints and rec[f].isdigit():
                    rec[f] = int(rec[f])
        m = set(rec)
        for f, d in dflt.items():
            if f not in rec:
                rec[f] = d
                M.ev("defaults_present")
        oks = [c[2](rec, m) for c in conds]
        # conditions run in order; the ones after a false one are not reached
        for s, o in zip(seen, oks):
            s.add(bool(o))
            if not o:
                break
        ok = all(oks)
        M.ev("group_kept" if ok else "group_dropped")
        return rec if ok else None

    for _ in range(rng.randint(2, 6)):
        if rng.random() < 0.3:
            b = uniq()
            rows.append("%s %s" % (other, b))
            by.append({"bid": b})
        if nested:
            top = {"tid": uniq()}
            rows.append("%s %s" % (kws[1], top["tid"]))
            for _ in range(rng.choice([0, 1, 2, 3])):
                r = leaf()
                if r is not None:
                    top.setdefault("leaf", []).append(r)
            tops.append(top)
        else:
            for _ in range(rng.choice([1, 2])):
                r = leaf()
                if r is not None:
                    exp.append(r)
    want = {}
    if nested and tops:
        want["top"] = tops
    if exp:
        want["g"] = exp
    if by:
        want["by"] = by
    res = M.parse(t, "\n".join(rows))
    M.eq(res, [[want]], "group conditions")
    both = sum(1 for s in seen if len(s) == 2)
    M.ev("cond_both_ways", both)
    M.case((t, tuple(rows)), nontrivial=both > 0)


def exhaustive(rng, M):
    """one condition, every value of the list"""
    names, tvars = gen.words(rng, 20), {}
    for _ in range(4):
        c = Chain(rng, M, tvars, names, 1)
        if c.preds:
            break
    vals = IPS if c.ip_only else WORDS
    on_start = rng.random() < 0.5
    if on_start:
        t = vars_tag(tvars, rng) + MACRO_TEXT + '<group name="g*">\nval {{ v%s }}\n</group>' % c.text
        data = "\n".join("val " + v for v in vals)
        exp = [{"v": v} for v in vals if c.ok(v)]
    else:
        t = vars_tag(tvars, rng) + MACRO_TEXT + '<group name="g*">\nrec {{ id | notequal("-") }}\n val {{ v%s }}\n</group>' % c.text
        data = "\n".join("rec r%d\n val %s" % (i, v) for i, v in enumerate(vals))
        exp = [dict([("id", "r%d" % i)] + ([("v", v)] if c.ok(v) else [])) for i, v in enumerate(vals)]
    res = M.parse(t, data)
    M.eq(res, [[{"g": exp} if exp else {}]], "one condition over all values")
    M.ev("line_dropped" if not on_start else "start_dropped", len(vals) - sum(c.ok(v) for v in vals))
    M.ev("cond_both_ways", len(c.seen) == 2)
    M.case((t, data), nontrivial=len(c.seen) == 2, n=len(vals))


def isolation(rng, M):
    """conditions of one template or input have no effect on another: values recorded under the same names"""
    kws, uniq = gen.tokens(rng, 4), gen.Uniq(rng)
    vals = [rng.choice(VALS) + rng.choice(["", "1"]) for _ in range(rng.randint(2, 8))]
    keep = rng.choice(VALS)
    conds = ["", "| contains('%s')" % keep, "| exclude('%s')" % keep, "| equal('%s')" % keep]
    preds = [lambda v: True, lambda v: keep in v, lambda v: keep not in v, lambda v: v == keep]
    order = rng.sample(range(4), rng.randint(2, 4))
    t = "".join('<group name="g%d*">\n%s {{ v %s }}\n</group>\n' % (i, kws[0], conds[i]) for i in order)
    ninp = rng.randint(1, 3)
    from ttp import ttp
    p = ttp(template=t)
    exp = []
    for _ in range(ninp):
        vs = [rng.choice(vals) for _ in range(rng.randint(1, 5))]
        p.add_input("\n".join("%s %s" % (kws[0], v) for v in vs) + "\n%s" % uniq())
        d = {}
        for i in sorted(order):
            got = [{"v": v} for v in vs if preds[i](v)]
            M.ev("start_dropped", len(vs) - len(got))
            if got:
                d["g%d" % i] = got
        exp.append(d)
    p.parse(one=True)
    M.note(template=t)
    # groups of equal lines: each keeps its own
    M.eq(p.result(), [exp], "groups with different conditions on the same lines")
    M.case((t, str(exp)), nontrivial=len(order) > 1)


def alternatives(rng, M):
    """start lines of the same text with different conditions: the record goes to the line whose condition holds, or is dropped"""
    u, names, kws = gen.Uniq(rng, "n"), gen.words(rng, 30), gen.tokens(rng, 12)
    tags = ["Alpha", "Beta", "Gamma", "Delta", "Zeta"]
    rng.shuffle(tags)
    kw, top, topv = kws.pop(), kws.pop(), names.pop()
    nested = rng.random() < 0.7
    inner = [(kws.pop(), names.pop()) for _ in range(rng.randint(1, 2))]

    def cond(tag):
        return rng.choice(['contains("%s")', 'startswith_re("%s")', 'contains_re("%s")', 'exclude_val("x") | contains("%s")']).replace('exclude_val("x") | ', 'exclude("qqq") | ') % tag

    groups, ind = [], " " if nested else ""
    alts = {}
    for gi in range(rng.choice([1, 1, 2, 3]) if nested else 1):
        mine = [(tags.pop(), names.pop()) for _ in range(rng.randint(1, 2) if nested else rng.randint(2, 3)) if tags]
        if not mine:
            break
        g = {"name": names.pop(), "alts": mine, "own": (kws.pop(), names.pop())}
        shared = rng.random() < 0.3
        if shared:
            mine[:] = [(t, mine[0][1]) for t, _ in mine]
        empty = rng.random() < 0.2
        L = []
        for i, (t, v) in enumerate(mine):
            if empty:
                L.append('%s%s {{ %s | %s }} {{ _start_ }}' % (ind, kw, v, cond(t)))
            else:
                L.append("%s%s {{ %s | %s%s }}" % (ind, kw, v, cond(t), " | _start_" if i or rng.random() < 0.3 else ""))
            alts[t] = (g, v)
        L += ["%s %s {{ %s }}" % (ind, k, v) for k, v in rng.sample(inner + [g["own"]], len(inner) + 1)]
        g["text"] = '<group name="%s*">\n%s\n</group>' % (g["name"], "\n".join(L))
        groups.append(g)
    plain = None
    if nested and tags and rng.random() < 0.5:
        plain = (tags.pop(), names.pop())
    if nested:
        t = '<group name="top*">\n%s {{ %s }}\n%s%s\n</group>' % (top, topv, "%s%s {{ %s | %s }}\n" % (ind, kw, plain[1], cond(plain[0])) if plain else "", "\n".join(g["text"] for g in groups))
    else:
        t = groups[0]["text"]
    rows, exp = [], []
    for _ in range(rng.randint(1, 4) if nested else 1):
        rec = {}
        if nested:
            rec[topv] = u()
            rows.append("%s %s" % (top, rec[topv]))
        used = False
        for _ in range(rng.randint(1, 7)):
            tag = rng.choice(list(alts) * 2 + tags + ["Other"] + ([plain[0]] if plain and not used else []))
            val = tag + u()
            rows.append("%s%s %s" % (ind, kw, val))
            cur = None
            if tag in alts:
                g, v = alts[tag]
                cur = {v: val}
                rec.setdefault(g["name"], []).append(cur)
                M.ev("alternative_taken")
            elif plain and tag == plain[0]:
                rec[plain[1]] = val
                used = True
                M.ev("plain_taken")
            else:
                M.ev("start_dropped")
            for k, v in inner + ([alts[tag][0]["own"]] if cur else []):
                if rng.random() < 0.6:
                    x = u()
                    rows.append("%s %s %s" % (ind, k, x))
                    if cur is not None:
                        cur[v] = x
        exp.append(rec)
    res = M.parse(t, "\n".join(rows) + "\n")
    M.eq(res, [[{"top": exp}]] if nested else [exp], "records of start lines with the same text and different conditions")
    M.case((t, tuple(rows)), nontrivial=len(alts) > 1)



def tails(rng, M):
    """lines of a record that come after its children belong to that record, dropped or not"""
    kws, names, uniq = gen.tokens(rng, 10), gen.words(rng, 10), gen.Uniq(rng)
    bare = rng.random() < 0.4
    alt = rng.random() < 0.4
    nested = rng.random() < 0.5
    kw, kf, ko, kc, kcf, kt1, kt2, ka, kn, kp = kws
    f, o, c, cf, x, y, i, n, pv, _ = names
    cond, ok = rng.choice([
        ('contains="%s"' % f, lambda v: v is not None), ('equal="%s, yes"' % f, lambda v: v == "yes"), ('exclude="%s"' % f, lambda v: v is None),
        ('functions="contains(\'%s\') | equal(\'%s\', \'yes\')"' % (f, f), lambda v: v == "yes"), ('functions="exclude_val(\'%s\', \'no\')"' % f, lambda v: v != "no"),
        ('contains_val="%s, yes"' % f, lambda v: v == "yes"), ('macro="keep"', lambda v: v == "yes")])
    ind = " " if nested else ""
    start = lambda w: "%s%s%s {{ _start_ }}\n" % (ind, w, "" if bare else " {{ %s }}" % i)
    parts = [" %s%s {{ %s }}\n" % (ind, kf, f), " %s%s {{ %s }}\n" % (ind, ko, o)]
    late = [" %s%s {{ %s }}\n" % (ind, kt1, x), " %s%s {{ %s%s }}\n" % (ind, kt2, y, rng.choice(["", " | joinmatches(',')"]))]
    joined = "joinmatches" in late[1]
    child = '<group name="c*" contains="%s">\n%s  %s {{ %s }}\n%s   %s {{ %s }}\n</group>\n' % (cf, ind, kc, c, ind, kcf, cf)
    body = rng.choice([parts + [child] + late, parts + late + [child], parts + late[:1] + [child] + late[1:]])
    t = '<group name="t*" %s>\n%s%s%s</group>\n' % (cond, start(kw), start(ka) if alt else "", "".join(body))
    if nested:
        t = '<group name="top*">\n%s {{ %s }}\n%s</group>\n' % (kn, n, t)
    t = "<macro>\ndef keep(data):\n    return data.get('%s') == 'yes'\n</macro>\n" % f + t
    rows, exp, kept, ndrop = [], [], 0, 0
    for _ in range(rng.randint(1, 3) if nested else 1):
        top = {n: uniq()}
        if nested:
            rows.append("%s %s" % (kn, top[n]))
        recs = []
        for _ in range(rng.randint(1, 5)):
            rec = {}
            v = uniq()
            rows.append(ind + (rng.choice([kw, ka]) if alt else kw) + ("" if bare else " " + v))
            if not bare:
                rec[i] = v
            fv = rng.choice([None, "yes", "yes", "no"])
            rec[o] = uniq()
            early = [" %s%s %s" % (ind, ko, rec[o])]
            if fv is not None:
                rec[f] = fv
                early.append(" %s%s %s" % (ind, kf, fv))
            rng.shuffle(early)
            rows += early
            good = ok(fv)
            late_rows = []
            for k, name in ((kt1, x), (kt2, y)):
                if rng.random() < 0.7:
                    late_rows.append((k, name))
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                if late_rows and rng.random() < 0.3:
                    late_rows = put(rng, rows, ind, late_rows, rec, uniq, joined, y)
                ch = {c: uniq()}
                rows.append("%s  %s %s" % (ind, kc, ch[c]))
                # children of dropped records are dropped as well
                if good and rng.random() < 0.6:
                    ch[cf] = uniq()
                    rows.append("%s   %s %s" % (ind, kcf, ch[cf]))
                    rec.setdefault("c", []).append(ch)
            while late_rows:
                late_rows = put(rng, rows, ind, late_rows, rec, uniq, joined, y)
                M.ev("late_lines")
            if joined and y in rec and rng.random() < 0.5:
                put(rng, rows, ind, [(kt2, y)], rec, uniq, joined, y)
            if good:
                recs.append(rec)
                kept += 1
            else:
                ndrop += 1
                M.ev("late_dropped")
        if recs:
            top["t"] = recs
        exp.append(top)
    res = M.parse(t, "\n".join(rows) + "\n")
    if nested:
        want = {"top": exp}
    else:
        want = {"t": exp[0]["t"]} if "t" in exp[0] else {}
    M.eq(res, [[want]], "lines after the children of kept and dropped records")
    M.case((t, tuple(rows)), nontrivial=bool(kept and ndrop))


def put(rng, rows, ind, late, rec, uniq, joined, y):
    k, name = late.pop(rng.randrange(len(late)))
    v = uniq()
    rows.append(" %s%s %s" % (ind, k, v))
    if name == y and joined and y in rec:
        v = rec[y] + "," + v
    rec[name] = v
    return late


KINDS = {"tails": (tails, 3000, 30000), "match": (match_conditions, 8000, 90000), "group": (group_conditions, 7000, 70000), "exhaustive": (exhaustive, 3000, 25000), "isolation": (isolation, 1600, 10000), "alternatives": (alternatives, 3000, 30000)}
