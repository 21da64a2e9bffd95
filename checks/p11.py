"""P11 - template variables and recorded values have the documented scope."""
import copy
import csv
import datetime
import fnmatch  # noqa: F401
import io
import json
import os
import time

import gen

RULE = ("generated variables (text, numbers, lists, dictionaries) given through every loader, in tags, included files, the constructor and add_vars, read back through named tags (plain, list, dictionary and dynamic paths) "
        "and through every function that takes a variable name; sequences of 1-5 inputs and 1-2 templates that record and count in match and group functions, read by set, sformat, named tags, dynamic paths, match functions and "
        "macros, against a reference keeping one local scope per input and one global scope; getters against the prompt, file name and clock of each input. Non-trivial: a recorded value crossed inputs or overrode a declared one.")
NEED = {"replaced": 1312, "getter_replaced": 250, "getter_given": 330, "reported_nowhere": 104, "bom": 26, "joined_vars": 570, "door_tag": 7426, "door_include": 3476, "door_ctor": 2344, "door_api": 1923, "ld_python": 3354,
        "ld_yaml": 3293, "ld_json": 3327, "ld_ini": 458, "ld_csv": 466, "readers": 8071, "reported": 2067, "reported_list": 397, "reported_dict": 400, "reported_dynamic": 177, "inputs": 4797, "recorded": 11391, "counted": 6342,
        "crossed_global": 2252, "local_reset": 1031, "override_declared": 4573, "group_record": 2854, "group_set": 2514, "macro_reads": 2392, "templates2": 240, "hostname": 1586, "hostname_missing": 183, "filename": 1770,
        "times": 1773, "second_parse": 481, "recorded_list": 2760}

PREFIXES = ["zeb", "yak", "wom", "vix", "urs", "tok", "sab", "rhi"]


def varname(rng, used):
    while True:
        n = rng.choice(PREFIXES) + rng.choice(["", "_", "V"]) + gen.word(rng, 2, 4)
        if n not in used:
            used.add(n)
            return n


def dump(rng, data, loader):
    if loader == "python":
        return rng.choice([repr(data), "".join("%s = %r\n" % kv for kv in data.items())])
    if loader == "json":
        return json.dumps(data, indent=rng.choice([None, 1]))
    if loader == "yaml":
        import yaml
        return yaml.safe_dump(data, allow_unicode=True, sort_keys=False, default_flow_style=rng.choice([False, None]))
    if loader == "ini":
        return "".join("[%s]\n" % s + "".join("%s = %s\n" % kv for kv in d.items()) for s, d in data.items())
    if loader == "csv":
        f = io.StringIO()
        w = csv.writer(f, lineterminator="\n")
        cols = list(next(iter(data.values())))
        w.writerow(["id"] + cols)
        for k, d in data.items():
            w.writerow([k] + [d[c] for c in cols])
        return f.getvalue()


class Doors:
    """puts variables into a parser through a random door each"""

    def __init__(self, rng, M):
        self.rng, self.M = rng, M
        self.tags = ""
        self.ctor = {}
        self.api = []
        self.n = 0

    def give(self, data, name=None, door=None, loader=None):
        rng, M = self.rng, self.M
        table = all(isinstance(v, dict) and v and all(isinstance(x, str) for x in v.values()) for v in data.values())
        samecols = table and len({tuple(v) for v in data.values()}) == 1
        loader = loader or rng.choice(["python", "yaml", "json"] + (["ini", "ini"] if table else []) + (["csv", "csv"] if samecols else []))
        door = door or rng.choice(["tag", "tag", "include", "ctor", "api"])
        if name is not None and door in ("ctor", "api"):
            door = "tag"
        M.ev("door_" + door)
        if door == "ctor":
            self.ctor.update(copy.deepcopy(data))
            return
        if door == "api":
            self.api.append(copy.deepcopy(data))
            return
        M.ev("ld_" + loader)
        a = ""
        if loader != "python" or rng.random() < 0.3:
            a += ' load="%s"' % loader
        if name is not None:
            a += " name=%s" % gen.quoteattr(name)
        if loader == "csv" and rng.random() < 0.5:
            a += ' key="id"'
        text = dump(rng, data, loader)
        tag = rng.choice(["vars", "v", "variables"])
        if door == "include":
            self.n += 1
            f = M.write("vars%d.txt" % self.n, text)
            self.tags += "<%s%s include=\"%s\"/>\n" % (tag, a, f)
        else:
            self.tags += "<%s%s>\n%s\n</%s>\n" % (tag, a, gen.escape(text), tag)

    def parser(self, body, data=None):
        from ttp import ttp
        tpl = self.tags + body if self.rng.random() < 0.6 else body + self.tags
        self.M.note(template=tpl, ctor=self.ctor, api=self.api)
        kw = {"vars": self.ctor} if self.ctor or self.rng.random() < 0.2 else {}
        p = ttp(template=tpl, **kw)
        for d in self.api:
            p.add_vars(d)
        return p


TEXTS = ["corp", "x-1", "10.1", "up", "A b", "ñu", "it's", "7", "Core SW", "_z", "no", "a:b", "q\"q", "&amp", "<b>"]


def any_value(rng, depth=0):
    r = rng.random()
    if r < 0.45:
        return rng.choice(TEXTS)
    if r < 0.6:
        return rng.choice([0, 5, -1, 2.5, True, False, 10 ** 12])
    if r < 0.8 or depth > 1:
        return [rng.choice(TEXTS) for _ in range(rng.randint(0, 3))]
    return {k: any_value(rng, depth + 1) for k in ["ka", "kb", "3"][: rng.randint(1, 3)]}


# ------------------------------------------------------------------ the same content from every door, reported where told
def case_reported(rng, M):
    used = set()
    doors = Doors(rng, M)
    exp = {}
    final = {}
    for i in range(rng.randint(1, 4)):
        kind = rng.choice(["mixed", "mixed", "mixed", "ini", "csv"])
        if kind == "mixed":
            data = {varname(rng, used): any_value(rng) for _ in range(rng.randint(1, 4))}
            loader = None
        elif kind == "ini":
            data = {varname(rng, used): {k: rng.choice(["corp", "x-1", "7", ".lab.local", "a b"]) for k in rng.sample(["1", "2", "Ab", "c-d"], rng.randint(1, 3))} for _ in range(rng.randint(1, 2))}
            loader = "ini"
        else:
            cols = rng.sample(["domain", "Name of", "n"], rng.randint(1, 3))
            data = {varname(rng, used): {k: rng.choice(["corp", "x, 1", "7", "a \"b\"", ""]) for k in cols} for _ in range(rng.randint(1, 3))}
            loader = "csv"
        top = "top%d%s" % (i, rng.choice(["", "vars", "_x"]))
        path = [top] + ["sub%s" % c for c in rng.sample("abc", rng.choice([0, 0, 1, 2]))]
        form = rng.choice(["none", "plain", "plain", "list", "dict", "dyn"])
        shown = copy.deepcopy(data)
        if form == "none":
            doors.give(data, None, loader=loader)
            final.update(data)
            continue
        M.ev("reported")
        leaf = shown
        name = list(path)
        if form == "list":
            M.ev("reported_list")
            name[-1] += "*"
            leaf = [shown]
        elif form == "dict":
            M.ev("reported_dict")
            name[-1] += "**"
        elif form == "dyn" and rng.random() < 0.25:
            # nothing in the template gives the name of the place
            M.ev("reported_nowhere")
            name.insert(rng.randint(0, len(name)), "{{ %s }}" % varname(rng, used))
            leaf = None
        elif form == "dyn" and kind == "mixed":
            k = varname(rng, used)
            kv = rng.choice(["sw-1", "R2", "core.x", "7"])
            data = dict({k: kv}, **data) if rng.random() < 0.5 else dict(data, **{k: kv})
            name.append("{{ %s }}" % k)
            path.append(kv)
            M.ev("reported_dynamic")
        doors.give(data, ".".join(name), loader=loader)
        final.update(data)
        if leaf is None:
            continue
        for s in reversed(path):
            leaf = {s: leaf}
        exp.update(leaf)
    p = doors.parser("<group name=\"g*\">\nrec {{ n }}\n</group>\n")
    n = rng.randint(1, 3)
    for i in range(n):
        p.add_input("rec a%d\nrec b%d\n" % (i, i))
    p.parse(one=True)
    M.ev("parses")
    want = [[dict(copy.deepcopy(exp), g=[{"n": "a%d" % i}, {"n": "b%d" % i}]) for i in range(n)]]
    got = p.result()
    M.eq(got, want, "variables reported at the path of their tag")
    M.case((len(exp), sorted(used)[:2], doors.tags.count("load")), nontrivial=bool(exp), n=n)


# ------------------------------------------------------------------ functions taking names of variables
def reader(rng, M, used, i):
    """(variable name, value, template line suffix, group attributes, records in -> records out)"""
    v = varname(rng, used)
    k = rng.choice(["contains", "equal", "exclude", "notequal", "re", "set", "set_list", "append", "prepend", "replaceall", "replaceall_list", "replaceall_dict", "resuball", "cidr", "gdefault", "gset", "gequal", "gcontains_val",
                    "gexclude_val", "sformat", "path", "chain_str", "chain_list", "default", "contains_re", "startswith_re", "gset_other"])
    t = rng.choice(["corp", "x-1", "up", "core"])
    vals = [rng.choice([t, t + rng.choice(["0", "-a"]), "pre" + t, "zz%d" % rng.randint(0, 9), "b" + t + "e" + t]) for _ in range(rng.randint(2, 5))]
    keep = lambda c: [{"n": x} for x in vals if c(x)]  # noqa: E731
    m = lambda f: [{"n": f(x)} for x in vals]  # noqa: E731
    q = rng.choice(['"%s"', "'%s'", "%s"]) % v
    a, name = "", "g%d*" % i
    value = t
    extra = ""
    if k == "contains":
        fn, out = "contains(%s)" % q, keep(lambda x: t in x)
    elif k == "equal":
        fn, out = "equal(%s)" % q, keep(lambda x: t == x)
    elif k == "exclude":
        fn, out = "exclude(%s)" % q, keep(lambda x: t not in x)
    elif k == "notequal":
        fn, out = "notequal(%s)" % q, keep(lambda x: t != x)
    elif k == "re":
        value = "[a-z]+-[0-9]+"
        import re
        fn, out = 're("%s")' % v, keep(lambda x: re.fullmatch(value, x))
    elif k in ("contains_re", "startswith_re"):
        import re
        value = rng.choice(["^x", "[0-9]$", "cor"])
        f = re.search if k == "contains_re" else re.match
        if k == "startswith_re":
            value = rng.choice(["x", "co.", "z+"])
        fn, out = "%s('%s')" % (k, v), keep(lambda x: f(value, x))
    elif k in ("set", "set_list"):
        if k == "set_list":
            value = rng.choice([["a", "b"], {"a": "b"}, 7, True])
        fn, extra, out = None, "{{ s | set(%s) }}\n" % q, [{"n": x, "s": value} for x in vals]
    elif k == "append":
        fn, out = "append(%s)" % q, m(lambda x: x + t)
    elif k == "prepend":
        fn, out = "prepend(%s)" % q, m(lambda x: t + x)
    elif k == "replaceall":
        fn, out = "replaceall('NEW', '%s')" % v, m(lambda x: x.replace(t, "NEW"))
    elif k == "replaceall_list":
        value = [t, "zz"]
        fn, out = "replaceall('NEW', '%s')" % v, m(lambda x: x.replace(t, "NEW").replace("zz", "NEW"))
    elif k == "replaceall_dict":
        value = {"NEW": [t], "Q": "zz"}
        fn, out = "replaceall('%s')" % v, m(lambda x: x.replace(t, "NEW").replace("zz", "Q"))
    elif k == "resuball":
        value = [t, "z[0-9z]"]
        import re
        fn, out = "resuball('NEW', '%s')" % v, m(lambda x: re.sub("z[0-9z]", "NEW", x.replace(t, "NEW")))
    elif k == "cidr":
        value = "10.%d.0.0/16" % rng.randint(0, 2)
        vals[:] = ["10.%d.%d.1" % (rng.randint(0, 2), rng.randint(0, 255)) for _ in range(4)]
        fn, out = "cidr_match('%s')" % v, keep(lambda x: x.startswith(value[:5]))
    elif k == "gdefault":
        a, fn = ' default="%s"' % v, None
        extra = " opt {{ o }}\n"
        out = [{"n": x, "o": value} for x in vals]
    elif k == "gset":
        value = rng.choice([t, ["a"], {"x": "y"}, 3])
        a, fn = ' set="%s"' % v, None
        out = [{"n": x, v: value} for x in vals]
    elif k == "gset_other":
        value = rng.choice([t, ["a"], {"x": "y"}, 3])
        a, fn = ' set="%s, tgt"' % v, None
        out = [{"n": x, "tgt": value} for x in vals]
    elif k == "gequal":
        a, fn, out = ' equal="n, %s"' % v, None, keep(lambda x: x == t)
    elif k == "gcontains_val":
        a, fn, out = ' contains_val="n, %s"' % v, None, keep(lambda x: t in x)
    elif k == "gexclude_val":
        a, fn, out = ' exclude_val="n, %s"' % v, None, keep(lambda x: x != t)
    elif k == "sformat":
        a, fn, out = " sformat=\"'{n}_{%s}', 'f'\"" % v, None, [{"n": x, "f": x + "_" + t} for x in vals]
    elif k == "path":
        name, fn, out = "g%d.{{ %s }}*" % (i, v), None, [{"n": x} for x in vals]
    elif k == "chain_str":
        value = "upper | append('!')"
        fn, out = "chain('%s')" % v, m(lambda x: x.upper() + "!")
    elif k == "chain_list":
        value = ["upper", "append('!')"]
        fn, out = "chain('%s')" % v, m(lambda x: x.upper() + "!")
    elif k == "default":
        fn, extra = None, " opt {{ o | default(\"%s\") }}\n" % v
        out = [{"n": x, "o": value} for x in vals]
    else:
        return None
    M.ev("readers")
    line = "rd%s {{ n%s }}\n" % ("abcdefgh"[i], " | " + fn if fn else "")
    tpl = "<group name=\"%s\"%s>\n%s%s</group>\n" % (name, a, line, extra)
    data = "".join("rd%s %s\n" % ("abcdefgh"[i], x) for x in vals)
    res = {}
    if out:
        res = {"g%d" % i: {t: out} if k == "path" else out}
    return v, value, tpl, data, res, k


def case_readers(rng, M):
    used = set()
    doors = Doors(rng, M)
    body, data, exp, kinds = "", "", {}, []
    before_groups = ("chain_str", "chain_list", "re", "default")
    for i in range(rng.randint(2, 7)):
        r = reader(rng, M, used, i)
        if r is None:
            continue
        v, value, tpl, d, res, k = r
        # names used while the template is loaded have to be known by then
        doors.give({v: value}, door=rng.choice(["tag", "include", "ctor"]) if k in before_groups else None, loader=rng.choice(["python", "yaml", "json"]))
        body += tpl
        data += d
        exp.update(res)
        kinds.append(k)
    if not kinds:
        M.case("trivial", nontrivial=False)
        return
    p = doors.parser(body)
    M.note(data=data)
    p.add_input(data)
    p.parse(one=True)
    M.ev("parses")
    M.eq(p.result(), [[exp]], "functions reading variables by name")
    M.case(tuple(kinds), sample=kinds, n=len(kinds))


# ------------------------------------------------------------------ scopes
class Scopes:
    def __init__(self, declared):
        self.declared = declared
        self.local = {}
        self.glob = {}

    def start(self):
        self.local = copy.deepcopy(self.declared)

    def record(self, n, v):
        self.local[n] = copy.deepcopy(v)
        self.glob[n] = copy.deepcopy(v)

    def get(self, n):
        return copy.deepcopy(self.local[n] if n in self.local else self.glob[n] if n in self.glob else None)

    def has(self, n):
        return n in self.local or n in self.glob


def case_scopes(rng, M):
    used = set()
    doors = Doors(rng, M)
    nrec = rng.randint(1, 3)
    recs = [varname(rng, used) for _ in range(nrec)]
    lists = [rng.random() < 0.25 for _ in recs]
    declared = {}
    tagname = None
    decl_counter = rng.random() < 0.5
    cnt, gcnt = varname(rng, used), varname(rng, used)
    for r in recs:
        if rng.random() < 0.4:
            declared[r] = rng.choice(["Undefined", "none", ["u"]])
    if decl_counter:
        declared[cnt] = rng.choice([0, 0, 5])
    plain = varname(rng, used)
    declared[plain] = "PLAIN"
    tagname = rng.choice([None, "vars", "vars.rep"])
    doors.give(declared, tagname, door=rng.choice(["tag", "include"]) if tagname else None)
    grp_rec = varname(rng, used)
    use_macro = rng.random() < 0.5
    gfun = rng.random() < 0.6
    gset_default = rng.random() < 0.5
    # template: recorders, then readers
    body = ""
    for i, r in enumerate(recs):
        pipe = ""
        if lists[i]:
            pipe = " | split(\"-\")"
        after = rng.choice(["", " | append(\"zz\")"]) if lists[i] else rng.choice(["", " | upper"])
        body += "<group name=\"rec%d*\">\nput%s {{ x%s | record(\"%s\")%s }}\n</group>\n" % (i, "abc"[i], pipe, r, after)
        recs[i] = (r, after)
    cond = rng.random() < 0.6
    body += "<group name=\"cnt*\">\nhit {{ h%s | count(var=\"%s\", globvar=\"%s\") }}\n</group>\n" % (" | equal(\"up\")" if cond else "", cnt, gcnt)
    if use_macro:
        body += """<macro>
def peek(data):
    v = _ttp_["vars"].get("%s", "no")
    g = _ttp_["global_vars"].get("%s", "no")
    return "%%s/%%s/%%s" %% (data, v, g)
</macro>
<group name="mac*">
mac {{ y | macro("peek") }}
</group>
""" % (cnt, gcnt)
    if gfun:
        body += "<group name=\"own*\" record=\"a, %s\">\nown {{ a }} {{ b }}\n</group>\n" % grp_rec
        body += "<group name=\"use*\" set=\"%s, got%s\">\nuse {{ a }}\n</group>\n" % (grp_rec, ", 'nothing yet'" if gset_default else "")
    late = rng.choice([plain] + [r for i, (r, _) in enumerate(recs) if not lists[i]] * 2)
    if isinstance(declared.get(late), list):
        late = plain
    latef = rng.choice(["append", "prepend"])
    body += "<group name=\"late*\">\nlate {{ z | %s(\"%s\") }}\n</group>\n" % (latef, late)
    guse = rng.choice(recs)[0]
    body += "<group name=\"guse*\" set=\"%s, got, 'not yet'\">\nguse {{ a }}\n</group>\n" % guse
    sets = "".join("{{ s%d | set(\"%s\") }}\n" % (i, r) for i, (r, _) in enumerate(recs))
    body += "<group name=\"rd*\">\nread {{ w }}\n%s{{ c | set(\"%s\") }}\n{{ gc | set(\"%s\") }}\n</group>\n" % (sets, cnt, gcnt)
    p = doors.parser(body)
    sc = Scopes(declared)
    exp = []
    datas = []
    interesting = 0
    ninp = rng.randint(1, 5) if rng.random() < 0.98 else rng.randint(11, 15)
    u = gen.Uniq(rng, "w")
    for t in range(ninp):
        M.ev("inputs")
        d = {k: [] for k in ["cnt", "mac", "own", "use", "late", "rd", "guse"]}
        lines = ["~ %d" % rng.randint(0, 10 ** 9)]
        sc.start()
        recorded_now = set()
        before = dict(sc.glob)
        for i, (r, after) in enumerate(recs):
            d["rec%d" % i] = []
            for _ in range(rng.choice([0, 0, 1, 2, 3])):
                txt = u("r").lower()
                lines.append("put%s %s" % ("abc"[i], txt))
                val = txt.split("-") if lists[i] else txt
                M.ev("recorded")
                if lists[i]:
                    M.ev("recorded_list")
                if r in declared:
                    M.ev("override_declared")
                    interesting += 1
                sc.record(r, val)
                recorded_now.add(r)
                shown = copy.deepcopy(val)
                if "append" in after:
                    shown = shown + ["zz"]
                elif "upper" in after:
                    shown = shown.upper()
                d["rec%d" % i].append({"x": shown})
        for _ in range(rng.choice([0, 1, 2, 4]) if rng.random() < 0.97 else rng.randint(12, 150)):
            up = rng.random() < 0.6
            lines.append("hit %s" % ("up" if up else "down"))
            if up or not cond:
                M.ev("counted")
                sc.local[cnt] = sc.local.get(cnt, 0) + 1
                sc.glob[gcnt] = sc.glob.get(gcnt, 0) + 1
                d["cnt"].append({"h": "up" if up else "down"})
        if use_macro:
            for _ in range(rng.choice([0, 1, 2])):
                txt = u("m")
                lines.append("mac %s" % txt)
                M.ev("macro_reads")
                d["mac"].append({"y": "%s/%s/%s" % (txt, sc.local.get(cnt, "no"), sc.glob.get(gcnt, "no"))})
        for _ in range(rng.choice([0, 1, 2])):
            txt = u("l")
            lines.append("late %s" % txt)
            v = sc.get(late) if sc.has(late) else late
            d["late"].append({"z": txt + v if latef == "append" else v + txt})
            if late in declared and late in before and late not in recorded_now and late != plain:
                M.ev("local_over_global")
        reads = [u("x") for _ in range(rng.choice([1, 1, 2]))]
        for txt in reads:
            lines.append("read %s" % txt)
        # values are final now: defaults of records
        for txt in reads:
            rd = {"w": txt}
            for i, (r, _) in enumerate(recs):
                rd["s%d" % i] = sc.get(r) if sc.has(r) else r
                if r not in declared and r in before and r not in recorded_now:
                    M.ev("crossed_global")
                    interesting += 1
                if r in declared and r in before and r not in recorded_now:
                    M.ev("local_reset")
            rd["c"] = sc.get(cnt) if sc.has(cnt) else cnt
            rd["gc"] = sc.get(gcnt) if sc.has(gcnt) else gcnt
            d["rd"].append(rd)
        report = {}
        if tagname:
            report = {k: copy.deepcopy(sc.local[k]) for k in declared}
        for _ in range(rng.choice([0, 1, 2])):
            a = u("g")
            lines.append("guse %s" % a)
            d["guse"].append({"a": a, "got": copy.deepcopy(sc.get(guse)) if sc.has(guse) else "not yet"})
            if guse in declared and guse in before and guse not in recorded_now:
                M.ev("local_over_global")
        # group functions: while results are formed, group after group
        if gfun:
            owns = [(u("o"), u("p")) for _ in range(rng.choice([0, 0, 1, 3]))]
            for a, b in owns:
                lines.append("own %s %s" % (a, b))
                M.ev("group_record")
                d["own"].append({"a": a, "b": b})
                sc.record(grp_rec, a)
            for _ in range(rng.choice([0, 1, 2])):
                a = u("q")
                known = sc.has(grp_rec)
                if not known and not gset_default:
                    continue  # set of an unknown variable without default: not specified
                lines.append("use %s" % a)
                M.ev("group_set")
                if known and not owns:
                    M.ev("crossed_global")
                    interesting += 1
                d["use"].append({"a": a, "got": sc.get(grp_rec) if known else "nothing yet"})
        if rng.random() < 0.5:
            # order of lines of different groups does not matter to match functions
            head, tail = lines[:1], lines[1:]
            order = sorted(range(len(tail)), key=lambda i: (tail[i].split()[0], i) if rng.random() < 2 else i)
            tail = [tail[i] for i in order]
            lines = head + tail
        datas.append("\n".join(lines) + "\n")
        e = {k: x for k, x in d.items() if x}
        if tagname and e:
            x = report
            for s in reversed(tagname.split(".")):
                x = {s: x}
            e.update(x)
        exp.append(e)
    for dd in datas:
        p.add_input(dd)
    M.note(datas=datas)
    p.parse(one=True)
    M.ev("parses")
    M.eq(p.result(), [exp], "recorded and counted values")
    M.case((nrec, ninp, tagname, use_macro, gfun, cond, len(declared)), nontrivial=interesting > 0, n=ninp)


def case_templates(rng, M):
    """global values reach templates parsed later, local ones and declared ones do not"""
    from ttp import ttp
    M.ev("templates2")
    used = set()
    r, c, own = varname(rng, used), varname(rng, used), varname(rng, used)
    n1 = rng.randint(1, 3)
    v = ["val%d" % rng.randint(0, 99) for _ in range(n1)]
    t1 = "<vars>\n%s = \"one\"\n</vars>\n<group name=\"a*\">\nput {{ x | record(%s) | count(globvar=\"%s\") }}\n{{ o | set(\"%s\") }}\n</group>\n" % (own, r, c, own)
    has2 = rng.random() < 0.5
    t2 = ("<vars>\n%s = \"two\"\n</vars>\n" % own if has2 else "") + \
        "<group name=\"b*\">\nread {{ w | count(globvar=\"%s\") }}\n{{ r | set(\"%s\") }}\n{{ c | set(\"%s\") }}\n{{ o | set(\"%s\") }}\n</group>\n" % (c, r, c, own)
    d1 = "".join("put %s\n" % x for x in v)
    n2 = rng.randint(1, 2)
    d2 = "".join("read q%d\n" % i for i in range(n2))
    nested = rng.random() < 0.5
    if nested:
        tpl = "<template name=\"t1\">\n<input load=\"text\">\n%s</input>\n%s</template>\n<template name=\"t2\">\n<input load=\"text\">\n%s</input>\n%s</template>" % (d1, t1, d2, t2)
        p = ttp(template=tpl)
    else:
        p = ttp(template=t1)
        p.add_template(t2, template_name="t2")
        p.add_input(d1, template_name="_root_template_")
        p.add_input(d2, template_name="t2")
    M.note(template=(t1, t2), data=(d1, d2), nested=nested)
    p.parse(one=True)
    M.ev("parses")
    want = [[{"a": [{"x": x, "o": "one"} for x in v]}], [{"b": [{"w": "q%d" % i, "r": v[-1], "c": n1 + n2, "o": "two" if has2 else own} for i in range(n2)]}]]
    M.eq(p.result(), want, "global values in a later template")
    M.case((nested, n1, n2, has2), n=2)


def case_reuse(rng, M):
    """global values persist over parses, local values start anew"""
    from ttp import ttp
    used = set()
    r, g, c = varname(rng, used), varname(rng, used), varname(rng, used)
    tpl = "<vars name=\"v\">\n%s = 0\n</vars>\n<group name=\"a*\">\nput {{ x | record(%s) | count(var=\"%s\", globvar=\"%s\") }}\n{{ g | set(\"%s\") }}\n</group>\n<group name=\"b*\">\nread {{ w }}\n{{ r | set(\"%s\") }}\n</group>" % (
        c, r, c, g, g, r)
    p = ttp(template=tpl)
    M.note(template=tpl)
    glob, last = 0, None
    for step in range(rng.randint(2, 4)):
        M.ev("second_parse")
        p.clear_input()
        p.clear_result()
        exp, log = [], []
        for _ in range(rng.randint(1, 2)):
            n = rng.randint(0, 3)
            vals = ["x%d" % rng.randint(0, 10 ** 6) for _ in range(n)]
            glob += n
            if vals:
                last = vals[-1]
            e = {"v": {c: n}}
            if vals:
                e["a"] = [{"x": x, "g": glob} for x in vals]
            e["b"] = [{"w": "q", "r": last if last is not None else r}]
            data = "~ %d\n" % rng.randint(0, 10 ** 9) + "".join("put %s\n" % x for x in vals) + "read q\n"
            p.add_input(data)
            log.append(data)
            exp.append(e)
        M.note(**{"step%d" % step: log})
        p.parse(one=True)
        M.eq(p.result(), [exp], "parse %d of a reused parser" % (step + 1))
    M.case((step, glob), n=step + 1)


# ------------------------------------------------------------------ getters
def prompt(rng, h):
    return rng.choice(["%s#", "%s>", "RP/0/4/CPU0:%s#", "some.user@%s>", "<%s>", "A:%s>", "*A:%s#", "*A:%s>config#", "%s#", "@%s>", "root-1@%s>", "RP/0/RSP0/CPU0:%s#", "*B:%s>config>system#"]) % h


def case_hostname(rng, M):
    used = set()
    doors = Doors(rng, M)
    hv, fv = varname(rng, used), varname(rng, used)
    doors.give({hv: "gethostname"}, rng.choice([None, "vars"]))
    named = "name=\"vars\"" in doors.tags
    doors.give({fv: "getfilename"})
    p = doors.parser("<group name=\"%s\">\nrec {{ n }}\n{{ h | set(\"%s\") }}\n{{ f | set(\"%s\") }}\n</group>\n<group name=\"same*\">\nsame {{ x | equal(\"%s\") }}\n</group>\n" % ("g*", hv, fv, hv))
    exp, datas = [], []
    for i in range(rng.randint(1, 4)):
        missing = rng.random() < 0.1
        h = rng.choice(["sw", "R-", "core.lab", "DC1_", "ALA-"]) + str(rng.randint(1, 99))
        d = "".join(rng.choice(["", "\n", "some text here\n", " indented words\n", "Building configuration...\n"]) for _ in range(rng.randint(0, 3)))
        if rng.random() < 0.03:
            # prompt is far from the start
            M.ev("far_prompt")
            d += "line of text before the prompt\n" * rng.randint(200, 2500)
        shown = h
        if not missing:
            M.ev("hostname")
            if rng.random() < 0.08:
                pr, shown = "%s (Default) #" % h, "%s (Default)" % h
            else:
                pr = prompt(rng, h)
            if rng.random() < 0.1 and pr[:-1] == h:
                # byte order mark at the start of the text
                M.ev("bom")
                d = rng.choice(["\ufeff", "\xef\xbb\xbf"])
            d += pr + rng.choice(["show run", "sh ip int br", " display cur", ""]) + "\n"
        else:
            M.ev("hostname_missing")
        d += "rec %d-%d\n" % (i, rng.randint(0, 10 ** 6)) + "".join(rng.choice(["text\n", " more of it\n"]) for _ in range(rng.randint(0, 2)))
        if not missing and rng.random() < 0.2:
            # prompts of another device in the same form: the first one is the host
            d += pr.replace(h, h + "9-other") + "exit\n"
            M.ev("second_prompt")
        if not missing and rng.random() < 0.4:
            d += pr + rng.choice(["", "exit"]) + "\n"
        same = [] if missing else [rng.choice([shown, shown, h + "x", "zz"]) for _ in range(rng.randint(0, 3))]
        same = [x for x in same if " " not in x]
        d += "".join("same %s\n" % x for x in same)
        same = [{"x": x} for x in same if x == shown]
        n = d.split("rec ")[1].split("\n")[0]
        M.ev("filename")
        if rng.random() < 0.4:
            src = M.write("in%d/%s.txt" % (i, gen.word(rng)), d)
            fname = src
        else:
            src, fname = d, "text_data"
        p.add_input(src)
        rec = {"n": n, "h": shown, "f": fname}
        if missing:
            rec["h"] = hv
        e = {"g": [rec]}
        if same:
            e["same"] = same
        if named and not missing:
            e["vars"] = {hv: shown}
        elif named:
            e["vars"] = {}
        exp.append(e)
        datas.append(d)
    M.note(datas=datas)
    p.parse(one=True)
    M.ev("parses")
    got = p.result()
    for r, e in zip(got[0], exp):
        if e.get("vars") == {} and not r.get("vars"):
            e.pop("vars")  # how a tag without values is reported is not specified
            r.pop("vars", None)
    M.eq(got, [exp], "host and file names of the inputs")
    M.case((len(exp), named, doors.tags.count("<")), n=len(exp))


FORMATS = {"get_time": "%H:%M:%S", "get_date": "%Y-%m-%d", "get_timestamp": "%Y-%m-%d %H:%M:%S", "get_timestamp_ms": "%Y-%m-%d %H:%M:%S.%f", "get_timestamp_iso": None, "get_time_ns": None}


def case_times(rng, M):
    """local time is that of the process at the time of parsing"""
    tz = os.environ.get("TZ")
    if rng.random() < 0.6:
        M.ev("time_zones")
        os.environ["TZ"] = "XXX%s%02d:%02d" % (rng.choice("+-"), rng.randint(0, 13), rng.choice([0, 0, 30, 45]))
        time.tzset()
    try:
        times(rng, M)
    finally:
        if tz is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = tz
        time.tzset()


def times(rng, M):
    used = set()
    doors = Doors(rng, M)
    names = {varname(rng, used): f for f in FORMATS}
    for n, f in names.items():
        doors.give({n: f}, rng.choice([None, "vars.t"]))
    sets = "".join("{{ %s | set(\"%s\") }}\n" % (n, n) for n in names)
    p = doors.parser("<group name=\"g\">\nrec {{ n }}\n%s</group>\n" % sets)
    ninp = rng.randint(1, 2)
    for i in range(ninp):
        p.add_input("rec x%d\n" % i)
    t0 = time.time_ns()
    p.parse(one=True)
    t1 = time.time_ns()
    M.ev("parses")
    res = p.result()
    M.eq(len(res[0]), ninp, "number of results")
    prev = {}
    for r in res[0]:
        for n, f in names.items():
            M.ev("times")
            v = r["g"].get(n)
            what = "%s gives %r between %d and %d" % (f, v, t0, t1)
            if f == "get_time_ns":
                M.true(isinstance(v, int) and t0 <= v <= t1, what)
            elif f == "get_timestamp_iso":
                dt = datetime.datetime.fromisoformat(v)
                M.true(dt.utcoffset() == datetime.timedelta(0) and t0 // 1000 - 1 <= round(dt.timestamp() * 10 ** 6) <= t1 // 1000 + 1, what)
            else:
                lo, hi = [datetime.datetime.fromtimestamp(t / 1e9) for t in (t0 - 50_000_000, t1)]  # time() lags behind by a clock tick
                fmt = FORMATS[f]
                if f == "get_timestamp_ms":
                    M.true(len(v.rsplit(".", 1)[-1]) == 3, what)
                    dt = datetime.datetime.strptime(v, fmt)
                    M.true(lo - datetime.timedelta(milliseconds=2) <= dt <= hi, what)
                elif f == "get_timestamp":
                    dt = datetime.datetime.strptime(v, fmt)
                    M.true(lo - datetime.timedelta(seconds=1) <= dt <= hi, what)
                else:
                    M.true(v in {x.strftime(fmt) for x in (lo, hi)} or hi - lo > datetime.timedelta(seconds=1), what)
            prev[f] = v
    M.case((ninp, doors.tags.count("<")), n=ninp * len(names))



def case_replaced(rng, M):
    """the last value given to a variable is the one used, be it a getter or not"""
    used = set()
    doors = Doors(rng, M)
    v, w = varname(rng, used), varname(rng, used)
    u = gen.Uniq(rng)
    host = "sw-%d" % rng.randint(1, 99)
    what = {"gethostname": host, "getfilename": "text_data"}
    value = lambda: rng.choice(["gethostname", "getfilename", u(), u(), "", 5, ["a", "b"], {"k": "v"}])  # noqa: E731
    cur = {v: value(), w: u()}
    named = rng.random() < 0.4
    doors.give(dict(cur), "vars.of" if named else None)
    named = "name=\"vars.of\"" in doors.tags
    shown = {k: True for k in cur}
    p = doors.parser("<group name=\"g*\">\nrec {{ n }}\n{{ s | set(\"%s\") }}\n{{ t | set(\"%s\") }}\n</group>\n" % (v, w))
    log = []
    for step in range(rng.randint(2, 4)):
        for _ in range(rng.choice([0, 1, 1, 2]) if step else rng.choice([0, 1])):
            new = {k: value() for k in rng.sample([v, w], rng.choice([1, 1, 2]))}
            M.ev("replaced", len(new))
            M.ev("getter_replaced", sum(1 for k in new if isinstance(cur[k], str) and cur[k] in what))
            M.ev("getter_given", sum(1 for k in new if isinstance(new[k], str) and new[k] in what))
            cur.update(new)
            log.append(new)
            p.add_vars(copy.deepcopy(new))
        vals = [u() for _ in range(rng.randint(1, 2))]
        p.clear_input()
        p.clear_result()
        p.add_input("%s#show\n" % host + "".join("rec %s\n" % x for x in vals))
        p.parse(one=True)
        M.ev("parses")
        now = {k: what[x] if isinstance(x, str) and x in what else x for k, x in cur.items()}
        e = {"g": [{"n": x, "s": now[v], "t": now[w]} for x in vals]}
        if named:
            e["vars"] = {"of": {k: now[k] for k in (v, w)}}
        M.note(given=log)
        M.eq(p.result(), [[e]], "variables given anew")
    M.case((named, step, len(log)), n=step + 1)


def case_joined(rng, M):
    """combined results: the values of every input, in order, at the path of the tag"""
    from ttp import ttp
    used = set()
    hv, cv, top, sub = varname(rng, used), varname(rng, used), "top" + gen.word(rng), "sub" + gen.word(rng)
    const = rng.choice(["x", 5, ["a"], {"k": "v"}])
    star = rng.random() < 0.4
    nested = rng.random() < 0.5
    gap = rng.choice(["", "", " "])
    name = top + (gap + "." + gap + sub if nested else "") + "*" * star
    own = rng.random() < 0.5
    t = '<template results="per_template">\n<vars name="%s">\n%s = "gethostname"\n%s = %r\n</vars>\n<group name="g*">\nrec {{ n }}\n%s</group>\n</template>' % (name, hv, cv, const, "{{ h | set(\"%s\") }}\n" % hv if own else "")
    p = ttp(template=t)
    seen, recs, u = [], [], gen.Uniq(rng)
    for i in range(rng.randint(1, 5)):
        h = "sw%d" % rng.randint(1, 9)
        d = "%s#show\n" % h
        if rng.random() < 0.8:
            seen.append({hv: h, cv: const})
            for _ in range(rng.randint(1, 3)):
                recs.append({"n": u(), "h": h} if own else {"n": u()})
                d += "rec %s\n" % recs[-1]["n"]
        d += "end %d\n" % i
        p.add_input(d)
    leaf = seen if star or len(seen) > 1 else seen[0] if seen else None
    want = {}
    if seen:
        want = {top: {sub: leaf} if nested else leaf, "g": recs}
    M.note(template=t)
    p.parse(one=True)
    M.ev("parses")
    M.ev("joined_vars", len(seen))
    M.eq(p.result(), [want], "variables of every input in combined results")
    M.case((name, len(seen)), nontrivial=len(seen) > 1)


KINDS = {"replaced": (case_replaced, 1000, 20000), "joined": (case_joined, 600, 15000), "reported": (case_reported, 2500, 120000), "readers": (case_readers, 4500, 200000), "scopes": (case_scopes, 4000, 180000), "templates": (case_templates, 600, 24000), "reuse": (case_reuse, 400, 16000),
         "hostname": (case_hostname, 1800, 80000), "times": (case_times, 500, 16000)}
