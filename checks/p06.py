"""P06 - defaults and set values fill only what is missing, per record."""
import copy

import gen

RULE = ("flat and nested groups whose variables have defaults of every form (text, numbers, lists, dictionaries, None, no argument, template variable names), group-wide defaults, "
        "conditional and unconditional sets, over records with any subset of their lines, several inputs and repeated parsing; expectation computed per record from the generated data. "
        "Non-trivial: some record got a filled in value and another record its captured value for the same name, or a mutable default was modified by a macro or by the caller.")
NEED = {"start_without_variables": 1485, "odd_name": 4284, "default_word": 1249, "default_unquoted": 102, "set_recorded_before": 244, "default_used": 74408, "captured_over_default": 57782, "set_unconditional": 28827,
        "set_conditional_hit": 13695, "set_conditional_miss": 13894, "group_default_used": 8847, "nomatch_default": 593, "mutable_checked": 100982, "set_recorded": 3550, "specific_over_group": 5521, "set_from_var": 8637,
        "default_from_var": 4617}


def literal(rng, uniq):
    return rng.choice([
        lambda: uniq("d"), lambda: uniq("d"), lambda: rng.randint(-5, 5000), lambda: [], lambda: {}, lambda: [uniq("l"), {"k": 1}],
        lambda: {"a": uniq("m"), "b": [1]}, lambda: None, lambda: True, lambda: False, lambda: "", lambda: "two words", lambda: "0", lambda: 1.5])()


class Spec:
    """names, template variables and expectation of one template"""

    def __init__(self, rng, M):
        self.rng, self.M = rng, M
        self.uniq = gen.Uniq(rng)
        self.names = gen.words(rng, 200)
        self.kws = gen.words(rng, 40)
        self.names = [n for n in self.names if n not in self.kws]
        self.tvars = {}

    def var(self, value=None, plain=False):
        """a template variable and its value"""
        rng = self.rng
        n = self.names.pop()
        if value is None:
            value = rng.choice([lambda: self.uniq("t"), lambda: self.uniq("t"), lambda: [self.uniq("t"), 2], lambda: {"z": self.uniq("t")}, lambda: rng.randint(1, 99)])()
        # a value that names another variable is data, not a reference
        if self.tvars and not plain and isinstance(value, str) and rng.random() < 0.3:
            value = rng.choice(sorted(self.tvars))
        self.tvars[n] = value
        return n, value

    def default(self):
        """(text, value)"""
        rng = self.rng
        r = rng.random()
        if r < 0.08:
            return rng.choice(["default", "default()"]), "None"
        if r < 0.3:
            n, v = self.var()
            self.M.ev("default_from_var")
            return rng.choice(["default('%s')", 'default("%s")']) % n, v
        v = literal(rng, self.uniq)
        if (v is None or isinstance(v, bool)) and rng.random() < 0.4:
            # words without quotes
            self.M.ev("default_word")
            return "default(%s)" % rng.choice([str(v).lower(), str(v).upper(), str(v)]), v
        if isinstance(v, str) and v.isalnum() and v[0].isalpha() and rng.random() < 0.2 and v not in self.tvars:
            self.M.ev("default_unquoted")
            return "default(%s)" % v, v
        return "default(%r)" % (v,), v


class Grp:
    def __init__(self, S, name, depth, indent, path):
        rng = S.rng
        self.S, self.name, self.indent = S, name, indent
        self.defaults, self.fields, self.sets, self.csets = {}, [], [], []
        self.gdef = None
        self.children = []
        attr = ""
        r = rng.random()
        if r < 0.3 and depth < 2:
            if rng.random() < 0.6:
                self.gdef = S.uniq("g")
                attr = ' default="%s"' % self.gdef
            else:
                n, v = S.var(S.uniq("gv"), plain=True)
                self.gdef = v
                attr = ' default="%s"' % n
        self.gdict = None
        if r > 0.88:
            n = S.names.pop()
            self.gdict = {S.names.pop(): literal(rng, S.uniq) for _ in range(rng.randint(1, 3))}
            S.tvars[n] = self.gdict
            self.defaults.update(self.gdict)
            attr = ' default="%s"' % n
        self.text = '<group name="%s*"%s>\n' % (name, attr)
        # start line
        sv = []
        self.start_kw = S.kws.pop()
        self.start_default = self.gdef is not None
        # a start line without variables of its own
        empty = rng.random() < 0.15
        if empty:
            S.M.ev("start_without_variables")
            self.start_default = False
        for _ in range(0 if empty else rng.choice([1, 1, 2])):
            sv.append(self.mkvar(0.25 if depth == 0 else 0, True))
        self.sv = sv
        self.text += indent + self.start_kw + ("".join(" {{ %s }}" % t for _, t in sv) or rng.choice([" {{ _start_ }}", "{{ _start_ }}"])) + "\n"
        items = []
        for _ in range(rng.randint(1, 4)):
            items.append(self.mkline())
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            items.append(self.mkcset())
        for _ in range(rng.choice([0, 0, 1, 2]) or empty):
            items.append(self.mkset())
        rng.shuffle(items)
        self.text += "".join(items)
        if depth < 2 and rng.random() < 0.45:
            c = Grp(S, S.names.pop(), depth + 1, indent + "  ", path + [name])
            self.children.append(c)
            self.text += c.text
        self.text += "</group>\n"

    def mkvar(self, p, start=False):
        S = self.S
        n = S.names.pop()
        if S.rng.random() < 0.1:
            # names that are not Python identifiers
            n = S.rng.choice(["%s-x", "%s.y", "%s/z", "2%s", "%s:1"]) % n
            S.M.ev("odd_name")
        if S.rng.random() < p:
            t, v = S.default()
            self.defaults[n] = v
            if self.gdef is not None:
                S.M.ev("specific_over_group")
            if start:
                self.start_default = True
            return n, "%s | %s" % (n, t)
        if self.gdef is not None:
            self.defaults[n] = self.gdef
        return n, n

    def mkline(self):
        S = self.S
        kw = S.kws.pop()
        vs = [self.mkvar(0.6) for _ in range(S.rng.choice([1, 1, 1, 2]))]
        if S.rng.random() < 0.2:
            vs.append((None, "ignore"))
        self.fields.append((kw, [n for n, _ in vs]))
        return self.indent + " " + kw + "".join(" {{ %s }}" % t for _, t in vs) + "\n"

    def setval(self):
        S = self.S
        r = S.rng.random()
        if r < 0.45:
            n, v = S.var()
            S.M.ev("set_from_var")
            return S.rng.choice(["'%s'", '"%s"', "%s"]) % n, v
        if r < 0.8:
            v = S.uniq("s")
            return "'%s'" % v, v
        v = S.rng.choice([5, True, None, "two words", "", -1])
        return repr(v), v

    def mkset(self):
        S = self.S
        n = S.names.pop()
        t, v = self.setval()
        self.defaults[n] = v
        self.sets.append(n)
        return "%s{{ %s | set(%s) }}\n" % (self.indent + S.rng.choice(["", " "]), n, t)

    def mkcset(self):
        S = self.S
        line = S.kws.pop() + S.rng.choice(["", " on", " %d" % S.rng.randint(1, 99), "-%d mode" % S.rng.randint(1, 9), " (a.b) x", " a b", "*", " [x]?"])
        out = {}
        txt = self.indent + " " + line
        dn = None
        for _ in range(S.rng.choice([1, 1, 2])):
            n = S.names.pop()
            t, v = self.setval()
            out[n] = v
            d = ""
            if self.gdef is not None:
                self.defaults[n] = self.gdef
            txt += " {{ %s | set(%s)%s }}" % (n, t, d)
        self.csets.append((line, out))
        return txt + "\n"

    # ---- data
    def record(self, rows, M, first=False):
        rng, S = self.S.rng, self.S
        rec, filled, got = {}, set(), set()
        vals = [S.uniq() for _ in self.sv]
        rows.append(self.indent + " ".join([self.start_kw] + vals))
        rec.update(zip([n for n, _ in self.sv], vals))
        todo = [("f", f) for f in self.fields if rng.random() < 0.55] + [("c", c) for c in self.csets]
        rng.shuffle(todo)
        for k, x in todo:
            if k == "f":
                vs = [S.uniq() for _ in x[1]]
                rows.append(self.indent + " " + " ".join([x[0]] + vs))
                rec.update({n: v for n, v in zip(x[1], vs) if n})
            elif rng.random() < 0.5:
                rows.append(self.indent + " " + x[0] + rng.choice(["", "", " "]))
                rec.update(x[1])
                M.ev("set_conditional_hit")
            else:
                M.ev("set_conditional_miss")
                r = rng.random()
                if r < 0.2:
                    rows.append(self.indent + " " + x[0] + "x")
                elif r < 0.3:
                    rows.append(self.indent + " no " + x[0])
                elif r < 0.4 and any(ch.isdigit() for ch in x[0]):
                    rows.append(self.indent + " " + "".join(ch if not ch.isdigit() else "%d7" % ((int(ch) + 1) % 10) for ch in x[0]))
        for n, v in self.defaults.items():
            if n in rec:
                M.ev("captured_over_default")
            else:
                M.ev("default_used")
                if n in self.sets:
                    M.ev("set_unconditional")
                elif self.gdef is not None and v is self.gdef:
                    M.ev("group_default_used")
                rec[n] = copy.deepcopy(v)
        for c in self.children:
            kids = [c.record(rows, M) for _ in range(rng.choice([0, 1, 2, 3]))]
            # a child group with start defaults and no match in the whole input is documented as unpredictable
            if not kids and c.start_default and first:
                kids = [c.record(rows, M)]
            if kids:
                rec[c.name] = kids
        if rng.random() < 0.3:
            rows.append(gen.noise(rng))
        return rec


def vars_text(tvars, rng):
    return "<vars>\n" + "".join("%s = %s\n" % (k, gen.escape(repr(v))) for k, v in tvars.items()) + "</vars>\n" if tvars else ""


def records(rng, M):
    S = Spec(rng, M)
    gs = [Grp(S, S.names.pop(), 0, "", []) for _ in range(rng.choice([1, 1, 2]))]
    by_arg = rng.random() < 0.2 and S.tvars
    t = ("" if by_arg else vars_text(S.tvars, rng)) + "".join(g.text for g in gs)
    from ttp import ttp
    p = ttp(template=t, vars=copy.deepcopy(S.tvars)) if by_arg else ttp(template=t)
    M.note(template=t, vars=S.tvars if by_arg else None)
    inputs, exp = [], []
    for _ in range(rng.choice([1, 1, 2, 3]) if rng.random() < 0.96 else rng.randint(11, 14)):
        rows, e = [gen.noise(rng)], {}
        for g in gs:
            recs = [g.record(rows, M, i == 0) for i in range(gen.several(rng, 1, 4, (30, 90), 0.03))]
            e[g.name] = recs
        inputs.append("\n".join(rows) + "\n")
        exp.append(e)
        p.add_input(inputs[-1])
    M.note(data=inputs)
    p.parse(one=True)
    M.ev("parses")
    M.eq(p.result(), [exp], "records with defaults and set values")
    M.ev("mutable_checked", distinct(M, p.result()))
    if rng.random() < 0.2:
        # whatever the caller does with the results, the next parse starts from the template
        spoil(p.result())
        p.clear_result()
        p.parse(one=True)
        M.eq(p.result(), [exp], "second parse after the first results were modified")
    M.case((t, tuple(inputs)))


def spoil(o):
    if isinstance(o, dict):
        for v in list(o.values()):
            spoil(v)
        o["spoiled"] = 1
    elif isinstance(o, list):
        for v in o:
            spoil(v)
        o.append("spoiled")


def distinct(M, res):
    """no list or dictionary object occurs twice in the results: values of one record are its own"""
    seen, n = {}, 0
    stack = [(res, "$")]
    while stack:
        o, path = stack.pop()
        if isinstance(o, (dict, list)):
            n += 1
            if id(o) in seen:
                M.fail("the same object is shared by two places of the results: %s and %s" % (seen[id(o)], path), key="shared-value", got=res)
            seen[id(o)] = path
            for k, v in (o.items() if isinstance(o, dict) else enumerate(o)):
                stack.append((v, "%s[%r]" % (path, k)))
    M.ev("comparisons")
    return n


def nothing(rng, M):
    """a group whose start line has defaults is reported with all its defaults when nothing matched"""
    S = Spec(rng, M)
    g = Grp(S, S.names.pop(), 0, "", [])
    while g.children or not (g.start_default or g.gdict):
        S = Spec(rng, M)
        g = Grp(S, S.names.pop(), 0, "", [])
    okw, oname = S.kws.pop(), S.names.pop()
    other = '<group name="%s*">\n%s {{ ov | default("none") }}\n</group>\n' % (oname, okw)
    plain, pkw = S.names.pop(), S.kws.pop()
    other += '<group name="%s*">\n%s {{ pv }}\n pline {{ pd | default("x") }}\n</group>\n' % (plain, pkw)
    t = vars_text(S.tvars, rng) + g.text + other
    rows = [gen.noise(rng) for _ in range(rng.randint(1, 4))]
    # lines of the group without its start line
    for kw, ns in g.fields:
        if rng.random() < 0.4:
            rows.append(" " + " ".join([kw] + [S.uniq() for _ in ns]))
    exp = {g.name: [copy.deepcopy(g.defaults)]} if g.start_default else {}
    ov = [S.uniq() for _ in range(rng.choice([0, 1, 2]))]
    rows += ["%s %s" % (okw, v) for v in ov]
    exp[oname] = [{"ov": v} for v in ov] or [{"ov": "none"}]
    res = M.parse(t, "\n".join(rows))
    if g.start_default:
        M.eq(res, [[exp]], "defaults of groups without matches")
        M.ev("nomatch_default")
    else:
        M.eq(res[0][0][oname], exp[oname], "defaults of a group without matches")
        M.true(plain not in res[0][0], "group without defaults on the start line reported without matches", got=res)
    M.case((t, tuple(rows)))


MUT = """<macro>
def touch(data):
    for k, v in data.items():
        if isinstance(v, list):
            v.append("touched")
        elif isinstance(v, dict):
            v["touched"] = len(v)
    return data
</macro>
"""


def touch(rec):
    for k, v in rec.items():
        if isinstance(v, list):
            v.append("touched")
        elif isinstance(v, dict):
            v["touched"] = len(v)
    return rec


def independence(rng, M):
    """macros modify the filled in values of each record: no other record, input or parse sees it"""
    S = Spec(rng, M)
    fields = []
    start, kw0 = S.names.pop(), S.kws.pop()
    txt = "%s {{ %s }}\n" % (kw0, start)
    dflt = {}
    gattr = ""
    for _ in range(rng.randint(1, 4)):
        n, kw = S.names.pop(), S.kws.pop()
        r = rng.random()
        v = rng.choice([[], {}, [S.uniq()], {"a": S.uniq()}])
        if r < 0.35:
            d, kind = "default(%r)" % (v,), "f"
        elif r < 0.65:
            w, v = S.var(v)
            d, kind = "default('%s')" % w, "f"
        elif r < 0.8:
            w, v = S.var(v)
            txt += " {{ %s | set('%s') }}\n" % (n, w)
            dflt[n] = v
            continue
        else:
            w, v = S.var(v)
            txt += " %s {{ %s | set('%s') }}\n" % (kw, n, w)
            fields.append((kw, n, v, True))
            continue
        dflt[n] = v
        txt += " %s {{ %s | %s }}\n" % (kw, n, d)
        fields.append((kw, n, v, False))
    if rng.random() < 0.3:
        w = S.names.pop()
        S.tvars[w] = {S.names.pop(): [1], S.names.pop(): {}}
        dflt.update(S.tvars[w])
        gattr = ' default="%s"' % w
    t = vars_text(S.tvars, rng) + MUT + '<group name="g*"%s macro="touch">\n%s</group>' % (gattr, txt)
    from ttp import ttp
    p = ttp(template=t)
    M.note(template=t)
    nparse = rng.choice([1, 2])
    exp = []
    for _ in range(nparse):
        batch = []
        for _ in range(rng.randint(1, 3)):
            rows, recs = [], []
            for _ in range(rng.randint(2, 4)):
                rec = {start: S.uniq()}
                rows.append("%s %s" % (kw0, rec[start]))
                for kw, n, v, cond in fields:
                    if rng.random() < 0.4:
                        if cond:
                            rows.append(" " + kw)
                            rec[n] = copy.deepcopy(v)
                        else:
                            rec[n] = S.uniq()
                            rows.append(" %s %s" % (kw, rec[n]))
                for n, v in dflt.items():
                    if n not in rec:
                        rec[n] = copy.deepcopy(v)
                        M.ev("mutable_checked")
                recs.append(touch(rec))
            p.add_input("\n".join(rows))
            batch.append({"g": recs})
        p.parse(one=True)
        res = p.result()
        exp += batch
        M.eq(res, [exp], "records whose filled in values were modified by a macro")
        distinct(M, res)
        p.clear_input()
        if rng.random() < 0.5:
            spoil(res)
            p.clear_result()
            exp = []
    M.case((t, nparse))


def recorded(rng, M):
    """set takes the value recorded earlier in the same input"""
    S = Spec(rng, M)
    kws, n = S.kws, S.names.pop()
    via = rng.choice(["match", "group"])
    target = n if rng.random() < 0.5 or via == "match" else S.names.pop()
    rn = S.names.pop() if via == "match" else target
    a = "<group name='a'%s>\n%s {{ %s%s }}\n</group>\n" % (
        " record='%s'" % ("%s, %s" % (n, target) if target != n else n) if via == "group" else "", kws[0], n, " | record('%s')" % rn if via == "match" else "")
    cond = rng.random() < 0.5
    init = {}
    if rng.random() < 0.5:
        init[rn] = "initial"
    forms = []
    # a group level record happens while results are formed, after the regexes ran
    if via == "match":
        forms.append(("line", " cline {{ c1 | set('%s') }}\n" % rn))
        forms.append(("always", "{{ c2 | set('%s') }}\n" % rn))
    forms.append(("gset", None))
    use = rng.sample(forms, rng.randint(1, len(forms)))
    b = "<group name='b*'%s>\n%s {{ bid }}\n%s</group>\n" % (" set='%s, c3'" % rn if any(f[0] == "gset" for f in use) else "", kws[1], "".join(f[1] or "" for f in use))
    t = vars_text(init, rng) + a + b
    from ttp import ttp
    p = ttp(template=t)
    exp, inputs = [], []
    last = None
    for i in range(rng.randint(1, 4)):
        v = S.uniq()
        rows, recs = ["%s %s" % (kws[0], v)], []
        shown = v
        if i and rng.random() < 0.35:
            # nothing recorded in this input: template variable, else the value of the previous inputs
            rows = ["!"]
            v = init.get(rn, last)
            M.ev("set_recorded_before")
            shown = None
        else:
            last = v
        for _ in range(rng.randint(1, 3)):
            rec = {"bid": S.uniq()}
            rows.append("%s %s" % (kws[1], rec["bid"]))
            for f, _ in use:
                if f == "line":
                    if rng.random() < 0.6:
                        rows.append(" cline")
                        rec["c1"] = v
                elif f == "always":
                    rec["c2"] = v
                else:
                    rec["c3"] = v
                M.ev("set_recorded")
            recs.append(rec)
        inputs.append("\n".join(rows))
        p.add_input(inputs[-1])
        exp.append({"a": {n: v}, "b": recs} if shown else {"b": recs})
    M.note(template=t, data=inputs)
    p.parse(one=True)
    M.eq(p.result(), [exp], "set from a recorded value")
    M.case((t, tuple(inputs)))


KINDS = {"records": (records, 7000, 60000), "nothing": (nothing, 1800, 12000), "independence": (independence, 2400, 20000), "recorded": (recorded, 1200, 8000)}
