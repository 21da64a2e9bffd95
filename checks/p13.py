"""P13 - each input is read as selected and parsed by exactly its own groups."""
import copy
import json
import os
import sys
import types

import gen

RULE = ("generated templates with 2-10 top groups (some naming inputs, some sharing a name) and 1-5 inputs given as tag text, files, directories with extension and name filters (tag attributes or YAML, JSON, Python text of the tag), "
        "group path inputs, and add_input with text, paths or structured data, relative to a base path given by the template or the constructor; every file and text is unique. The results are compared with the list of items that the "
        "selection calls for, each parsed by the groups selected for it. Device transcripts with command extraction; input parameters read back. Non-trivial: some file or group was excluded by the selection.")
NEED = {"groups_joined": 363, "base_own": 139, "base_parent": 87, "indented_first": 16947, "items": 30683, "by_tag_text": 3170, "by_url": 5170, "by_dir": 5439, "by_api_text": 4669, "by_api_path": 2482, "by_api_struct": 462,
        "by_group_path": 748, "excluded_ext": 2227, "excluded_filter": 1515, "two_filters": 1036, "groups_all": 2359, "groups_listed": 4042, "groups_named": 6228, "groups_none": 335, "same_group_name": 1034, "base_template":
        804, "base_ctor": 938, "many_urls": 2600, "subdir_ignored": 4939, "params": 7807, "params_yaml": 1046, "params_json": 1054, "params_python": 1040, "commands": 8344, "commands_left_out": 2976, "commands_special": 1133,
        "appended": 3394, "unicode": 10633, "templates": 1993}

LOG = types.ModuleType("vplog")
LOG.calls = []
sys.modules["vplog"] = LOG


def fname(rng, used):
    while True:
        n = rng.choice(["sw", "rt", "fw", "R", "host-", "data_", "cfg.", "a b "]) + rng.choice(["", "1", "22", "x", "-main", ".lab", "_ñ"]) + gen.word(rng, 1, 3) + rng.choice([".txt", ".txt", ".log", ".conf", ".cfg", ".TXT", "", ".txt.bak", ".txtx", ".atxt", ".mylog", ".old-cfg"])
        if n not in used and n.lower() not in {u.lower() for u in used}:
            used.add(n)
            return n


FILTERS = [("^sw", lambda n: n.startswith("sw")), ("rt", lambda n: "rt" in n), (r"\d", lambda n: any(c.isdigit() for c in n)), (r"\.lab", lambda n: ".lab" in n), ("main", lambda n: "main" in n), (r"^[a-z]+_", None),
           ("lab|main", lambda n: "lab" in n or "main" in n), ("x$", lambda n: n.endswith("x")), ("(?i)^HOST", lambda n: n.lower().startswith("host"))]


def fmatch(f, n):
    import re
    return f[1](n) if f[1] else bool(re.search(f[0], n))


class World:
    """files below the scratch directory"""

    def __init__(self, rng, M):
        self.rng, self.M = rng, M
        self.u = gen.Uniq(rng)
        self.nd = 0

    def text(self):
        r = self.rng
        ns = [self.u() + (r.choice(["", "", "ñ", "日本"]) if r.random() < 0.2 else "") for _ in range(r.randint(1, 3))]
        if any(ord(c) > 127 for n in ns for c in n):
            self.M.ev("unicode")
        t = "".join("%srec %s%s" % (r.choice(["", "junk line %s\n" % self.u(), "!\n"]), n, r.choice(["\n", "\n", "\n\n"])) for n in ns)
        if r.random() < 0.2:
            t = t.rstrip("\n")
        if r.random() < 0.3:
            # a line of the template has no indent
            t = r.choice([" ", "\t", "   "]) + "rec %s\n" % self.u() + t
            self.M.ev("indented_first")
        return t, ns

    def directory(self, n=None):
        """(relative path, {file name: values})"""
        r = self.rng
        self.nd += 1
        d = r.choice(["data%d", "in %d", "dir.%d/sub"]) % self.nd
        files, used = {}, set()
        for _ in range(n or gen.several(r, 1, 7, (20, 60), 0.03)):
            f = fname(r, used)
            t, ns = self.text()
            self.M.write("%s/%s" % (d, f), t)
            files[f] = ns
        if r.random() < 0.4:
            self.M.ev("subdir_ignored")
            t, _ = self.text()
            self.M.write("%s/nested.txt/inner.txt" % d, t)
        return d, files


def pick(rng, files, M):
    """random extensions and filters: (attributes, names of files selected)"""
    attrs = {}
    sel = dict(files)
    if rng.random() < 0.55:
        exts = rng.sample(["txt", "log", "conf", "cfg", "bak", "TXT"], rng.randint(1, 3))
        attrs["extensions"] = exts if len(exts) > 1 or rng.random() < 0.5 else exts[0]
        # names without any dot are not asked about: whether they have an extension is not documented
        left = {f: v for f, v in sel.items() if "." in f and f.rsplit(".", 1)[1] in exts}
        if len(left) < len(sel):
            M.ev("excluded_ext")
        sel = left
    if rng.random() < 0.5:
        fl = rng.sample(FILTERS, rng.choice([1, 1, 2, 3]))
        attrs["filters"] = [f[0] for f in fl] if len(fl) > 1 or rng.random() < 0.5 else fl[0][0]
        if len(fl) > 1:
            M.ev("two_filters")
        left = {f: v for f, v in sel.items() if any(fmatch(x, f) for x in fl)}
        if len(left) < len(sel):
            M.ev("excluded_filter")
        sel = left
    return attrs, sel


def dump(rng, params, load):
    if load == "json":
        return json.dumps(params, ensure_ascii=rng.random() < 0.5)
    if load == "python":
        return "".join("%s = %r\n" % kv for kv in params.items()) if rng.random() < 0.7 else repr(params)
    import yaml
    return yaml.safe_dump(params, allow_unicode=True, sort_keys=False, default_flow_style=rng.choice([False, None]))


def input_tag(rng, name, params, M, extra=None):
    """tag with parameters as attributes or text"""
    params = dict(params)
    tagname = rng.choice(["input", "input", "in", "i"])
    a = ""
    if name is not None:
        if extra is None and rng.random() < 0.2 and params:
            params["name"] = name
            a += ""
        else:
            a += " name=%s" % gen.quoteattr(name)
    text = {}
    for k, v in params.items():
        if isinstance(v, str) and k != "name" and rng.random() < 0.3:
            a += " %s=%s" % (k, gen.quoteattr(v))
        elif isinstance(v, list) and k == "groups" and rng.random() < 0.5:
            a += " groups=%s" % gen.quoteattr(", ".join(v))
        else:
            text[k] = v
    if not text:
        return "<%s%s/>\n" % (tagname, a)
    load = rng.choice(["yaml", "json", "python"])
    if load != "python" or rng.random() < 0.5:
        a += " load=\"%s\"" % load
    return "<%s%s>\n%s\n</%s>\n" % (tagname, a, gen.escape(dump(rng, text, load)), tagname)


def one_template(rng, M, w, base, allow_struct=True):
    """(template text, [api calls], [expected segments]) segments are (ordered?, [expected result])"""
    ng = rng.choice([2, 3, 4, 5, 10])
    groups = []
    letters = "abcdefghijklmnop"
    same = rng.random() < 0.25
    nin = gen.several(rng, 1, 4, p=0.04)
    names = ["in%s" % letters[i] + rng.choice(["", "-x", " y", ".z"]) for i in range(nin)]
    if rng.random() < 0.3:
        names[rng.randrange(nin)] = None
    for g in range(ng):
        gi = []
        real = [n for n in names if n]
        if real and rng.random() < 0.3:
            gi = rng.sample(real, rng.randint(1, min(2, len(real))))
        groups.append({"name": "g" + letters[g], "inputs": gi, "var": "n" + letters[g]})
    if same and ng > 2:
        M.ev("same_group_name")
        groups[1]["inputs"] = []
        groups[0]["inputs"] = groups[0]["inputs"] or ([n for n in names if n][:1])
        if groups[0]["inputs"]:
            groups[1]["name"] = groups[0]["name"]
    path_groups = []
    if rng.random() < 0.15:
        M.ev("by_group_path")
        d, files = w.directory(rng.randint(1, 3))
        g = rng.choice(groups)
        if not g["inputs"]:
            p = d + "/" if rng.random() < 0.5 else d + "/" + rng.choice(sorted(files))
            g["inputs"] = [p if base is not None else M.scratch + "/" + p]
            fl = files if p == d + "/" else {p.rsplit("/", 1)[1]: files[p.rsplit("/", 1)[1]]}
            path_groups.append((g, fl))
    tags, api, inputs = [], [], {}
    for n in names:
        r = rng.random()
        pr = {}
        # selection of groups
        q = rng.random()
        if q < 0.35:
            sel = "all"
            if rng.random() < 0.3:
                pr["groups"] = rng.choice(["all", ["all"]])
        elif q < 0.95:
            sel = rng.sample([g["name"] for g in groups], rng.randint(1, min(3, ng)))
            pr["groups"] = sel if rng.random() < 0.6 else ", ".join(sel)
        else:
            sel = ["missing"]
            pr["groups"] = "missing"
        key = n or "Default_Input"
        named = [g for g in groups if key in g["inputs"]]
        if named:
            M.ev("groups_named")
            gs = named
        elif sel == "all":
            M.ev("groups_all")
            gs = [g for g in groups if not g["inputs"]]
        else:
            M.ev("groups_listed" if sel != ["missing"] else "groups_none")
            gs = [g for g in groups if g["name"] in sel and not g["inputs"]]
        segs = []
        if r < 0.25:
            M.ev("by_tag_text")
            t, ns = w.text()
            t = t if t.endswith("\n") else t + "\n"
            a = "" if n is None else " name=%s" % gen.quoteattr(n)
            if "groups" in pr:
                a += " groups=%s" % gen.quoteattr(pr["groups"] if isinstance(pr["groups"], str) else ",".join(pr["groups"]))
            tags.append("<input%s load=\"text\">\n%s</input>\n" % (a, gen.escape(t)))
            segs.append((True, [ns]))
        elif r < 0.65:
            M.ev("by_url")
            urls = []
            nu = rng.choice([1, 1, 2, 3]) if rng.random() < 0.96 else rng.randint(8, 12)
            dirs = [w.directory() for _ in range(nu)]
            if nu > 1:
                M.ev("many_urls")
            merged = {}
            for d, files in dirs:
                merged.update(files)
            at, _ = pick(rng, merged, M) if rng.random() < 0.8 else ({}, None)
            if rng.random() < 0.3:
                at = {}
            for d, files in dirs:
                if rng.random() < 0.4:
                    # a single file: extensions and filters are for directories
                    f = rng.choice(sorted(files))
                    urls.append(d + "/" + f)
                    segs.append((True, [files[f]]))
                else:
                    M.ev("by_dir")
                    urls.append(d + rng.choice(["/", ""]))
                    segs.append((False, [v for f, v in files.items() if chosen(at, f)]))
            if base is None:
                urls = [M.scratch + "/" + x for x in urls]
            pr["url"] = urls if len(urls) > 1 or rng.random() < 0.5 else urls[0]
            pr.update(at)
            tags.append(input_tag(rng, n, pr, M))
        else:
            # data given by API, sometimes to an input declared in the template
            declared = n is not None and rng.random() < 0.4
            macro = None
            if declared and allow_struct and rng.random() < 0.3:
                macro = "flat"
                M.ev("by_api_struct")
            if declared:
                tags.append("<input name=%s%s%s/>\n" % (gen.quoteattr(n), " groups=%s" % gen.quoteattr(", ".join(sel)) if sel != "all" else "", " macro=\"flat\"" if macro else ""))
            kw = {}
            if n is not None or rng.random() < 0.2:
                kw["input_name"] = key
            if sel != "all" or rng.random() < 0.2:
                kw["groups"] = ["all"] if sel == "all" else list(sel)
            wider = not named and not macro and sel not in ("all", ["missing"]) and rng.random() < 0.3
            for j in range(rng.choice([1, 1, 2, 3]) if rng.random() < 0.96 else rng.randint(11, 14)):
                if j:
                    M.ev("appended")
                if wider and (j or declared):
                    # the input is parsed by the groups of all that was added to it
                    M.ev("groups_joined")
                    more = rng.sample([g["name"] for g in groups], rng.randint(1, min(3, ng)))
                    kw = dict(kw, groups=more)
                    sel = sel + more
                    gs = [g for g in groups if g["name"] in sel and not g["inputs"]]
                if macro:
                    t, ns = w.text()
                    st = [{"line": ln} for ln in t.split("\n")] if rng.random() < 0.5 else {"x": t.split("\n")}
                    api.append((st, kw))
                    segs.append((True, [ns]))
                elif rng.random() < 0.65:
                    M.ev("by_api_text")
                    t, ns = w.text()
                    api.append((t, kw))
                    segs.append((True, [ns]))
                else:
                    M.ev("by_api_path")
                    d, files = w.directory(rng.randint(1, 3))
                    if rng.random() < 0.5:
                        f = rng.choice(sorted(files))
                        api.append((M.scratch + "/" + d + "/" + f, kw))
                        segs.append((True, [files[f]]))
                    else:
                        api.append((M.scratch + "/" + d + rng.choice(["", "/"]), kw))
                        segs.append((False, list(files.values())))
            inputs[key] = (gs, segs, "tag" if declared else "api")
            continue
        inputs[key] = (gs, segs, "tag")
    body = ""
    for g in groups:
        a = " input=%s" % gen.quoteattr(rng.choice([", ", ","]).join(g["inputs"])) if g["inputs"] else ""
        # the order of results of groups sharing a name is visible, keep lists
        body += "<group name=\"%s\"%s>\nrec {{ %s | _start_ }}\n</group>\n" % (g["name"], a, g["var"])
    mac = "<macro>\ndef flat(data):\n    if isinstance(data, list):\n        return '\\n' + '\\n'.join(i['line'] for i in data) + '\\n\\n'\n    if isinstance(data, dict):\n        return '\\n' + '\\n'.join(data['x']) + '\\n\\n'\n</macro>\n" if "macro=\"flat\"" in "".join(tags) else ""
    parts = ["".join(tags), body]
    if rng.random() < 0.5:
        parts.reverse()
    tpl = mac + "".join(parts)
    rng.shuffle(api) if rng.random() < 0.0 else None
    # order of items: inputs of tags, group paths, then those first named by API calls
    order = [k for k in inputs if inputs[k][2] == "tag"]
    exp = []

    def item(gs, ns):
        r = {}
        for g in gs:
            recs = [{g["var"]: n} for n in ns]
            have = r.get(g["name"], [])
            r[g["name"]] = have + recs
        return {k: v if len(v) > 1 else v[0] for k, v in r.items()}

    nit = 0
    done = set()

    def add(k):
        if k in done:
            return
        done.add(k)
        if k in inputs:
            gs, segs, _ = inputs[k]
            for o, lst in segs:
                exp.append((o, [item(gs, ns) for ns in lst]))
        for g, fl in path_groups:
            if g["inputs"] == [k]:
                exp.append((False, [item([g], ns) for ns in fl.values()]))

    for k in order:
        add(k)
    # inputs the groups name exist from then on, in order of groups
    for g in groups:
        for k in g["inputs"]:
            add(k)
    for k in inputs:
        add(k)
    nit = sum(len(x[1]) for x in exp)
    M.ev("items", nit)
    return tpl, api, exp, inputs


def chosen(at, f):
    e = at.get("extensions")
    if e:
        e = [e] if isinstance(e, str) else e
        if "." not in f or f.rsplit(".", 1)[1] not in e:
            return False
    fl = at.get("filters")
    if fl:
        fl = [fl] if isinstance(fl, str) else fl
        import re
        if not any(re.search(x, f) for x in fl):
            return False
    return True


def key(x):
    return json.dumps(x, sort_keys=True)


def compare(M, got, exp, what):
    n = sum(len(x[1]) for x in exp)
    M.true(isinstance(got, list), what + ": list of results", got=got)
    i = 0
    flat = []
    for o, lst in exp:
        seg = got[i:i + len(lst)]
        i += len(lst)
        if not o:
            seg = sorted(seg, key=key)
            lst = sorted(lst, key=key)
        flat.append((seg, lst))
    for seg, lst in flat:
        M.eq(seg, lst, what)
    M.eq(len(got), n, what + ": number of items")


def case_select(rng, M):
    from ttp import ttp
    w = World(rng, M)
    base = rng.choice([None, None, "template", "ctor"])
    tpl, api, exp, inputs = one_template(rng, M, w, base)
    kw = {}
    if base == "template":
        M.ev("base_template")
        tpl = "<template base_path=%s>\n%s</template>\n" % (gen.quoteattr(M.scratch + "/"), tpl)
    elif base == "ctor":
        M.ev("base_ctor")
        kw["base_path"] = M.scratch + "/"
    M.note(template=tpl, api=api, expected=exp)
    p = ttp(template=tpl, **kw)
    for d, k in api:
        p.add_input(copy.deepcopy(d), **k)
    p.parse(one=True)
    M.ev("parses")
    compare(M, p.result()[0], exp, "items parsed by their groups")
    M.case((len(inputs), base, len(api), tpl.count("<group"), tpl.count("input=")), nontrivial=tpl.count("groups=") + tpl.count("filters") > 0, sample=tpl[:300], n=max(1, len(exp)))


def case_templates(rng, M):
    """inputs of several templates, addressed by template name"""
    from ttp import ttp
    w = World(rng, M)
    nt = rng.randint(2, 3)
    M.ev("templates", nt)
    tpls, exps = [], []
    p = ttp()
    nested = rng.random() < 0.4
    base = rng.choice([None, None, None, "own", "ctor"] + ["parent"] * 2 * nested)
    if base:
        M.ev("base_" + base)
    if base == "ctor":
        p = ttp(base_path=M.scratch + "/")
    whole = ""
    apis = []
    for t in range(nt):
        tpl, api, exp, _ = one_template(rng, M, w, base)
        tpls.append(tpl)
        exps.append(exp)
        apis += [(t, a) for a in api]
        whole += "<template name=\"t%d\"%s>\n%s</template>\n" % (t, " base_path=%s" % gen.quoteattr(M.scratch + "/") if base == "own" else "", tpl)
    if base == "parent":
        whole = "<template base_path=%s>\n%s</template>\n" % (gen.quoteattr(M.scratch + "/"), whole)
    M.note(template=whole, api=apis)
    if nested:
        p.add_template(whole)
    else:
        for t, tpl in enumerate(tpls):
            if base == "own":
                tpl = "<template base_path=%s>\n%s</template>\n" % (gen.quoteattr(M.scratch + "/"), tpl)
            p.add_template(tpl, template_name="t%d" % t)
    # calls for different templates interleaved
    left = [[a for t2, a in apis if t2 == t] for t in range(nt)]
    while any(left):
        t = rng.choice([t for t in range(nt) if left[t]])
        d, k = left[t].pop(0)
        p.add_input(copy.deepcopy(d), template_name="t%d" % t, **k)
    common = None
    if rng.random() < 0.3:
        t, ns = w.text()
        common = ns
        p.add_input(t, input_name="com mon", template_name="_all_", groups=["nothing"])
    p.parse(one=True)
    M.ev("parses")
    r = p.result()
    M.eq(len(r), nt, "one result per template")
    for t in range(nt):
        compare(M, r[t], exps[t] + ([(True, [{}])] if common else []), "items of template %d" % t)
    M.case((nt, nested, len(apis)), nontrivial=True, n=sum(len(e) for e in exps))


# ------------------------------------------------------------------ parameters
def value(rng, depth=0):
    r = rng.random()
    if r < 0.4:
        return rng.choice(["corp", "10.0.0.1", "a b", "it's", "x: y", "<b> & c", "ñ", "", "7", "show version | i x"])
    if r < 0.6:
        return rng.choice([0, 5, -3, 2.5, True, False, None])
    if r < 0.8 or depth > 1:
        return [value(rng, 2) for _ in range(rng.randint(0, 3))]
    return {k: value(rng, depth + 1) for k in rng.sample(["host", "port", "opts", "a-b", "1"], rng.randint(0, 3))}


def case_params(rng, M):
    from ttp import ttp
    want = {}
    tpls = []
    nt = rng.choice([1, 1, 2])
    ids = {}
    for t in range(nt):
        tname = "_root_template_" if nt == 1 else "t%d" % t
        want[tname] = {}
        body = "<group name=\"g\">\nrec {{ n }}\n</group>\n"
        for i in range(rng.randint(1, 3)):
            n = None if i == 0 and rng.random() < 0.3 else "in-%d" % i
            params = {k: value(rng) for k in rng.sample(["my_params", "devices", "credentials", "timeout", "method", "x1"], rng.randint(1, 4))}
            load = rng.choice(["yaml", "json", "python"])
            M.ev("params_" + load)
            M.ev("params", len(params))
            if rng.random() < 0.3:
                params["groups"] = rng.choice(["g", ["g"], "all"])
            shown = dict(params)
            if n and rng.random() < 0.3:
                shown = dict(params, name=n)
            a = " name=\"%s\"" % n if n and "name" not in shown else ""
            if load != "python" or rng.random() < 0.5:
                a += " load=\"%s\"" % load
            text = repr(shown) if load == "python" and "name" in shown else dump(rng, shown, load)
            body += "<input%s>\n%s\n</input>\n" % (a, gen.escape(text))
            want[tname][n or "Default_Input"] = shown
            ids[(t, i)] = "name" in shown
        tpls.append(body)
    tpl = tpls[0] if nt == 1 else "".join("<template name=\"t%d\">\n%s</template>\n" % (t, b) for t, b in enumerate(tpls))
    M.note(template=tpl, want=want)
    p = ttp(template=tpl)
    got = p.get_input_load()
    # an input named inside of its own text
    M.eq(got, want, "parameters of inputs")
    if rng.random() < 0.5:
        for t in want:
            for n in want[t]:
                p.add_input("rec zz %s %s\n" % (t, n), input_name=n, template_name=t)
        p.parse(one=True)
        M.ev("parses")
        M.eq(p.get_input_load(), want, "parameters of inputs after parsing")
    M.case((nt, sum(len(x) for x in want.values())), nontrivial=True, sample=tpl[:200], n=sum(len(x) for x in want.values()))


# ------------------------------------------------------------------ commands
PROMPTS = [("%s#%s", None), ("%s>%s", None), ("%s# %s", None), ("A:%s#%s", "sros"), ("RP/0/RSP0/CPU0:%s#%s", "xr"), ("user@%s> %s", "jun"), ("<%s>%s", "hua"), ("*A:%s# %s", "sros")]
COMMANDS = ["show version", "show interfaces", "show int", "show ip route", "show ip route vrf A", "show lldp", "display ip", "show run", "show inter"]
SPECIAL = ["show run | include ip", "show ip bgp 10.0.0.0/8 [x]", "show route (all)", "show arp ?", "show log | i a.b", "show a+b", "show $x", "show run | begin ^int"]


def case_commands(rng, M):
    from ttp import ttp
    w = World(rng, M)
    macros = ""
    n = rng.randint(1, 3)
    tpl, exp, api = "", [], []
    for i in range(n):
        host = rng.choice(["R1", "sw-1", "core.lab", "fw_2", "cpe1", "x", "R1+2"])
        pr = rng.choice(PROMPTS)[0]
        special = rng.random() < 0.3
        cmds = rng.sample(COMMANDS + (SPECIAL if special else []), rng.randint(2, 5))
        # the input attribute splits commands by comma
        asked = rng.sample(cmds, rng.randint(1, len(cmds)))
        extra = rng.sample([c for c in COMMANDS if c not in cmds], rng.choice([0, 0, 1]))
        text, out = "~ %d\n" % i, {}
        for c in cmds:
            ns = [w.u() for _ in range(rng.choice([0, 1, 2, 3]))]
            text += pr % (host, c) + rng.choice(["", "", " "]) + "\n"
            for x in ns:
                text += rng.choice(["rec %s\n", "rec %s\n", "junk\nrec %s\n", "\nrec %s\n"]) % x
            if not ns:
                text += rng.choice(["% Invalid\n", "nothing here\n"])
            out[c] = ns
            M.ev("commands")
            if c in SPECIAL:
                M.ev("commands_special")
            if c not in asked:
                M.ev("commands_left_out")
        if rng.random() < 0.5:
            text += pr % (host, "") + "\n"
        want = [x for c in asked for x in out[c]]
        lst = asked + extra
        rng.shuffle(lst)
        pipes = any("|" in c for c in lst)
        form = rng.choice(["attr", "functions", "struct"]) if not pipes else rng.choice(["attr", "struct"])
        if form == "attr":
            tpl += "<input name=\"in%d\" extract_commands=%s/>\n" % (i, gen.quoteattr(", ".join(lst)))
        elif form == "functions":
            mac = ""
            if rng.random() < 0.5:
                # a macro renames the records before or after the extraction
                macros = "<macro>\ndef ren(data):\n    return data.replace('rec ', 'rec m')\n</macro>\n"
                want = ["m" + x for x in want]
                mac = "macro('ren')"
            f = "extract_commands(%s)" % ", ".join(rng.choice(["'%s'" % c]) for c in lst)
            parts = [f] + ([mac] if mac else [])
            rng.shuffle(parts)
            tpl += "<input name=\"in%d\" functions=%s/>\n" % (i, gen.quoteattr(" | ".join(parts)))
        else:
            tpl += "<input name=\"in%d\" load=\"json\">\n%s\n</input>\n" % (i, gen.escape(json.dumps({"extract_commands": ", ".join(lst)})))
        if rng.random() < 0.5:
            api.append((text, "in%d" % i))
        else:
            api.append((M.write("dev%d.txt" % i, text), "in%d" % i))
        exp.append(sorted(want))
    tpl = macros + tpl + "<group name=\"g*\">\nrec {{ n }}\n</group>\n"
    M.note(template=tpl, api=api, exp=exp)
    p = ttp(template=tpl)
    for d, name in api:
        p.add_input(d, input_name=name)
    p.parse(one=True)
    M.ev("parses")
    got = p.result()[0]
    M.eq(len(got), n, "one item per transcript")
    # the order of the pieces of text is not documented
    M.eq([sorted(r["n"] for r in x.get("g", [])) for x in got], exp, "records of the extracted commands")
    M.case((n, len(COMMANDS)), nontrivial=True, sample=tpl[:200], n=n)


KINDS = {"select": (case_select, 8000, 120000), "templates": (case_templates, 2000, 30000), "params": (case_params, 3000, 40000), "commands": (case_commands, 3000, 60000)}
