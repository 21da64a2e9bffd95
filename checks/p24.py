"""P24 - command line and one-call interface equal the class interface."""
import ast
import contextlib
import io
import json
import os
import random
import re
import subprocess
import sys

import gen
import vk

RULE = ("generated templates (one to three templates in a file, single, in python files, in the templates collection, with variables, base paths and inputs of their own, lookups, macros, per template results, outputs) and data (text, file, folder) "
        "whose results are known are given to the command line (its function with replaced arguments, and real processes started as installed command and as script) with random options in random order and spelling, to the one-call function, and to "
        "the class. Everything printed is decoded (json, yaml, python literals) and must be one document equal to the result of the class, limited to requested templates, and nothing if no format requested; wrong uses must end with an error and "
        "print no results. Non-trivial: results have values.")
NEED = {"structured_data": 100, "again": 168, "call_format": 163, "call_known": 340, "call_multi": 24, "call_no_data": 189, "calls": 600, "class": 755, "cli": 980, "data_file": 225, "data_folder": 823, "data_rel": 116, "data_spaces": 114, "data_text":
        108, "format_json": 283, "format_none": 112, "format_pprint": 105, "format_raw": 112, "format_yaml": 110, "known": 456, "level_critical": 1, "level_debug": 5, "level_error": 1, "level_info": 4, "level_warning": 1,
        "log_file": 13, "logs_seen": 9, "multi": 20, "one": 215, "only_unknown": 10, "out_template": 282, "out_template_limits": 80, "outputs_file": 29, "outputs_self": 13, "outputs_terminal": 31, "per_template": 167, "prefix":
        60, "prefix_data": 20, "process_command": 11, "process_script": 11, "structure_dictionary": 179, "structure_flat_list": 181, "structure_list": 177, "template_dir": 236, "template_file": 472, "template_py": 249,
        "template_rel": 223, "template_text": 233, "timing": 142, "unsupported": 56, "upper": 87, "values": 11899, "vars": 562, "vars_single_quotes": 146, "wrong_both": 12, "wrong_name": 12, "wrong_no_data": 9,
        "wrong_no_template": 9, "wrong_option": 9, "wrong_path": 10, "wrong_vars_list": 10, "wrong_vars_text": 9}
ASSUME = ["data given for templates that have data of their own: the results either with or without their own data are accepted", "folders as template path, unknown structures and unknown options are not decided", "psutil is not installed"]


def py(v):
    return repr(v)


class Case:
    """templates with known results"""

    def __init__(self, rng, M, rich=True):
        self.rng, self.M = rng, M
        self.u = gen.Uniq(rng)
        self.kws = gen.words(rng, 24)
        self.names = gen.words(rng, 16)
        self.vars = {}
        self.lines = []
        self.templates = []          # (name, text, function texts -> list of results, per_template)
        self.own_data = False
        self.base = ""
        n = rng.choice([1, 1, 2, 3])
        self.single = n == 1 and rng.random() < 0.7
        for i in range(n):
            self.templates.append(self.template("_root_template_" if self.single else self.names[i] + rng.choice(["", "-x", "_1", ".b"])))
        if self.single:
            self.text = self.templates[0]["text"]
        else:
            self.text = "\n".join('<template name="%s"%s>\n%s\n</template>' % (t["name"], ' results="per_template"' if t["per"] else "", t["text"]) for t in self.templates)
        self.datas = [self.data() for _ in range(rng.choice([1, 1, 2, 3]))]

    def template(self, name):
        rng = self.rng
        t = {"name": name, "per": (not self.single) and rng.random() < 0.25, "groups": [], "out": None}
        text = []
        if rng.random() < 0.3:
            v = self.names.pop()
            t["tv"] = (v, self.u("t"))
            text.append('<vars>\n%s = "%s"\n</vars>' % t["tv"])
        if rng.random() < 0.25:
            t["macro"] = "m" + self.names.pop()
            text.append('<macro>\ndef %s(data):\n    return data + "!"\n</macro>' % t["macro"])
        for g in range(rng.randint(1, 2)):
            k, k2 = self.kws.pop(), self.kws.pop()
            a, b, c = gen.words(rng, 3)
            sets = []
            if rng.random() < 0.5:
                v = "v" + self.names.pop()
                val = rng.choice([self.u("s"), "it's " + self.u(), 'say "%s"' % self.u(), "a\\b", "é" + self.u(), [self.u(), 2], {"k": self.u("d")}, 7, True, 1.5])
                self.vars[v] = val
                sets.append((gen.word(rng, 8, 10), v, val))
            if t.get("tv") and rng.random() < 0.6:
                sets.append((gen.word(rng, 8, 10), t["tv"][0], t["tv"][1]))
            conv = rng.choice([None, None, "int", "macro" if t.get("macro") else None])
            gname = rng.choice([None, "g" + self.names.pop() if False else self.kws.pop()])
            grp = {"k": k, "k2": k2, "a": a, "b": b, "c": c, "sets": sets, "conv": conv, "name": gname, "star": rng.random() < 0.4}
            body = "%s {{ %s }} {{ %s%s }}\n %s {{ %s | ORPHRASE }}" % (k, a, b, {None: "", "int": " | to_int", "macro": ' | macro("%s")' % t.get("macro")}[conv], k2, c)
            body += "".join('\n{{ %s | set("%s") }}' % (s[0], s[1]) for s in sets)
            text.append('<group name="%s%s">\n%s\n</group>' % (gname, "*" if grp["star"] else "", body) if gname else "<group>\n%s\n</group>" % body)
            t["groups"].append(grp)
        if sum(1 for g in t["groups"] if not g["name"]) and len(t["groups"]) > 1:
            # groups with names and without are not mixed
            for g in t["groups"]:
                g["name"] = None
            text = [re.sub(r'<group name="[^"]*">', "<group>", x) for x in text]
        t["text"] = "\n".join(text)
        return t

    def data(self):
        """one text with records of every group, described as list of (group, values)"""
        rng = self.rng
        lines, recs = [], []
        gs = [g for t in self.templates for g in t["groups"]]
        for _ in range(rng.randint(1, 6)):
            g = rng.choice(gs)
            a, b = self.u("a"), (str(rng.randint(0, 9999)) if g["conv"] == "int" else self.u("b"))
            c = rng.choice([None, self.u("c"), "%s %s" % (self.u(), self.u("é"))])
            lines.append("%s %s %s" % (g["k"], a, b))
            if c:
                lines.append(" %s %s" % (g["k2"], c))
            recs.append((g, a, b, c))
            if rng.random() < 0.3:
                lines.append("!")
        lines.append("~ %s" % self.u())
        return "\n".join(lines) + "\n", recs

    def one(self, t, recs):
        """result of template t for one input"""
        streams = []
        for g in t["groups"]:
            out = []
            for gg, a, b, c in recs:
                if gg is not g:
                    continue
                r = {g["a"]: a, g["b"]: {None: b, "int": int(b) if g["conv"] == "int" else 0, "macro": b + "!"}[g["conv"]]}
                if c:
                    r[g["c"]] = c
                for s in g["sets"]:
                    r[s[0]] = s[2]
                out.append(r)
            streams.append((g, out))
        if not t["groups"][0]["name"]:
            return [r for g, o in streams for r in o] or {}
        res = {}
        for g, o in streams:
            if o:
                res[g["name"]] = o if (g["star"] or len(o) > 1) else o[0]
        return res

    def expected(self, t, order=None):
        return [self.one(t, self.datas[i][1]) for i in (order or range(len(self.datas)))]


def literal(text):
    return ast.literal_eval(text)


def decode(fmt, text, M):
    """exactly one document"""
    import yaml
    if fmt == "json":
        d = json.loads(text)
        M.true(text == json.dumps(d, sort_keys=True, indent=4, separators=(",", ": ")) + "\n", "JSON printed in another form", text=text)
        return d
    if fmt == "yaml":
        docs = list(yaml.safe_load_all(text))
        M.true(len(docs) == 1, "number of documents printed", text=text)
        return docs[0]
    if fmt == "raw":
        M.true(text.count("\n") == 1, "raw results take one line", text=text)
    return literal(text)


def run_cli(args, M, cwd=None):
    """command line function in this process: (stdout, error)"""
    import ttp  # noqa: F401
    mod = sys.modules["ttp.ttp"]
    out, err = io.StringIO(), io.StringIO()
    argv, sys.argv = sys.argv, ["ttp"] + args
    was = os.getcwd()
    e = None
    try:
        if cwd:
            os.chdir(cwd)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                mod.cli_tool()
            except SystemExit as ex:
                e = ex
            except (TimeoutError, vk.Violation):
                raise
            except Exception as ex:
                e = ex
    finally:
        sys.argv = argv
        os.chdir(was)
    M.ev("cli")
    return out.getvalue(), e


def env():
    e = {k: v for k, v in os.environ.items() if k != "PYTHONPATH"}
    e.update(PYTHONPATH=vk.REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONIOENCODING="utf-8")
    return e


def run_process(args, M, cwd, how, **extra):
    cmd = [sys.executable, "-c", "import sys; sys.argv[0] = 'ttp'; from ttp.ttp import cli_tool; sys.exit(cli_tool())"] if how == "command" else [sys.executable, os.path.join(vk.TTPDIR, "ttp.py")]
    p = subprocess.run(cmd + args, cwd=cwd, env=dict(env(), **extra), capture_output=True, timeout=100)
    if p.returncode < 0:
        raise vk.Inconclusive("child was killed")
    M.ev("process_" + how)
    return p.stdout.decode("utf-8"), p.stderr.decode("utf-8", "replace"), p.returncode


LONG = {"-d": "--data", "-dp": "--data-prefix", "-t": "--template", "-tn": "--template-name", "-o": "--outputter", "-ot": "--out-template", "-l": "--logging", "-lf": "--log-file", "-s": "--structure", "-v": "--vars"}


def options(rng, opts):
    """list of (option, value) in random order and spelling"""
    opts = list(opts)
    rng.shuffle(opts)
    out = []
    for o, v in opts:
        if v is None:
            out.append(o)
            continue
        name = rng.choice([o, LONG[o]])
        if name.startswith("--") and rng.random() < 0.4:
            out.append("%s=%s" % (name, v))
        else:
            out += [name, v]
    return out


def shape(c, names, structure, order):
    """expected results in the structure"""
    ts = [t for t in c.templates if not names or t["name"] in names]
    res = []
    for t in ts:
        r = c.expected(t, order)
        res.append((t, r))
    if any(t["per"] for t in ts):
        return None
    if structure == "dictionary":
        return {t["name"]: r for t, r in res}
    if structure == "flat_list":
        flat = []
        for t, r in res:
            for i in r:
                flat += i if isinstance(i, list) else [i]
        return flat
    return [r for t, r in res]


def setup(rng, M):
    """files of a case: data argument, template options, order of data"""
    c = Case(rng, M)
    kind = rng.choice(["file", "file", "folder", "text", "rel", "spaces"]) if len(c.datas) == 1 else "folder"
    if kind == "folder":
        for i, (t, r) in enumerate(c.datas):
            M.write("data/f%d.%s" % (i, rng.choice(["txt", "log", "cfg"])), t)
        data = os.path.join(M.scratch, "data") + rng.choice(["", "/"])
        listed = sorted(range(len(c.datas)), key=lambda i: [f.startswith("f%d." % i) for f in os.listdir(data)].index(True))
    else:
        listed = [0]
        data = c.datas[0][0] if kind == "text" else M.write({"file": "d.txt", "rel": "d/e.log", "spaces": "my data é.txt"}[kind], c.datas[0][0])
        if kind == "rel":
            data = os.path.relpath(data, M.scratch)
    M.ev("data_" + kind)
    tk = rng.choice(["file", "file", "py", "rel", "text", "dir", "collection"] if False else ["file", "file", "py", "rel", "text", "dir"])
    topts, extra = [], {}
    if tk == "py":
        nm = gen.words(rng, 2)
        M.write("tpl.py", "%s = %r\n%s = %r\n" % (nm[0], c.text, nm[1], "zzz {{ zzz }}"))
        topts = [("-t", os.path.join(M.scratch, "tpl.py")), ("-tn", nm[0])]
    elif tk == "text":
        topts = [("-t", c.text)]
    elif tk == "dir":
        M.write("coll/t1.txt", c.text)
        extra["TTP_TEMPLATES_DIR"] = os.path.join(M.scratch, "coll")
        topts = [("-t", "t1.txt")]
    else:
        path = M.write("sub/t.txt", c.text)
        topts = [("-t", os.path.relpath(path, M.scratch) if tk == "rel" else path)]
    M.ev("template_" + tk)
    return c, data, topts, extra, listed


def by_class(c, data, extra, cwd, M, structure, names, parse=None, own=None, **kw):
    from ttp import ttp
    was = os.getcwd()
    os.chdir(cwd)
    try:
        p = ttp(template=c.text, vars=dict(c.vars), **kw)
        if data is not None:
            p.add_input(data, template_name="_all_")
        p.parse(**(parse or {"one": True}))
        M.ev("class")
        return p.result(structure=structure, templates=names)
    finally:
        os.chdir(was)


@contextlib.contextmanager
def environ(extra):
    old = {k: os.environ.get(k) for k in extra}
    os.environ.update(extra)
    try:
        yield
    finally:
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


def vars_text(rng, v):
    """spellings of the variables"""
    t = json.dumps(v, ensure_ascii=rng.random() < 0.5)
    if "'" not in t and '\\"' not in t and rng.random() < 0.4:
        return t.replace('"', "'"), True
    return t, False


def count(res):
    if isinstance(res, dict):
        return sum(count(v) for v in res.values())
    if isinstance(res, list):
        return sum(count(v) for v in res)
    return 1


TIMING = re.compile(r"^\d+(\.\d+)?(e-\d+)? +(Data descriptors loaded|Template\(s\) loaded|Data parsing finished|[\w ]+ dumped|Done) *(; .*)?$")


def prepare(rng, M, process=False):
    c, data, topts, extra, order = setup(rng, M)
    fmt = rng.choice(["json", "json", "yaml", "raw", "pprint", "none"])
    structure = rng.choice([None, "list", "dictionary", "flat_list"])
    names = []
    opts = topts + [("-d", data)]
    if c.vars:
        t, single = vars_text(rng, c.vars)
        opts.append(("-v", t))
        M.ev("vars")
        if single:
            M.ev("vars_single_quotes")
    if structure:
        opts.append(("-s", structure))
        M.ev("structure_" + structure)
    if rng.random() < 0.4:
        allnames = [t["name"] for t in c.templates]
        names = rng.sample(allnames, rng.randint(1, len(allnames)))
        if rng.random() < 0.15:
            names.append("unknown")
        if rng.random() < 0.05:
            names = ["unknown"]
            M.ev("only_unknown")
        opts.append(("-ot", rng.choice([",", ", ", " , "]).join(names)))
        M.ev("out_template")
        if len(names) < len(allnames):
            M.ev("out_template_limits")
    spell = fmt
    if fmt != "none":
        if rng.random() < 0.15:
            spell = rng.choice([fmt.upper(), fmt.title()])
            M.ev("upper")
        elif rng.random() < 0.1:
            spell, fmt = rng.choice(["table", "csv", "xml", "tabulate"]), "json"
            M.ev("unsupported")
        opts.append(("-o", spell))
    M.ev("format_" + fmt)
    mode = rng.random()
    parse = {"one": True}
    if mode < 0.3:
        opts.append(("--one", None))
        M.ev("one")
    elif mode < (0.45 if process else 0.33):
        opts.append(("--multi", None))
        parse = {"multi": True}
        M.ev("multi")
    timing = rng.random() < 0.2
    if timing:
        opts.append((rng.choice(["-T", "--Timing"]), None))
        M.ev("timing")
    return c, data, extra, order, fmt, structure, names, opts, parse, timing


def judge(M, c, out, fmt, structure, names, order, want, timing):
    if timing:
        lines = out.splitlines(True)
        ts = [x for x in lines if TIMING.match(x.rstrip("\n"))]
        M.true(len(ts) >= 3, "timing lines are printed", out=out)
        out = "".join(x for x in lines if not TIMING.match(x.rstrip("\n")))
    if fmt == "none":
        M.true(out == "", "results printed with no format asked for", out=out)
        return
    got = decode(fmt, out, M)
    M.eq(got, want, "results printed by the command line (%s)" % fmt)
    exp = shape(c, names, structure or "list", order)
    if exp is not None:
        M.eq(got, exp, "results printed by the command line and data known")
        M.ev("known")
    elif any(t["per"] for t in c.templates):
        M.ev("per_template")
    M.ev("values", count(got))


def cli(rng, M):
    c, data, extra, order, fmt, structure, names, opts, parse, timing = prepare(rng, M)
    args = options(rng, opts)
    M.note(args=args, text=c.text, data=[d[0] for d in c.datas])
    with environ(extra):
        want = by_class(c, data, extra, M.scratch, M, structure or "list", names, parse)
        out, e = run_cli(args, M, M.scratch)
    M.true(e is None, "command line failed", error=repr(e), out=out)
    judge(M, c, out, fmt, structure, names, order, want, timing)
    M.case((fmt, structure, bool(names), tuple(sorted(o for o, v in opts)), c.text), count(want) > 0)


def process(rng, M):
    """real processes, logs kept apart"""
    c, data, extra, order, fmt, structure, names, opts, parse, timing = prepare(rng, M, True)
    how = rng.choice(["command", "script"])
    logfile = level = None
    if rng.random() < 0.7:
        level = rng.choice(["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL", "debug", "info"])
        opts.append(("-l", level))
        M.ev("level_" + level.lower())
    if rng.random() < 0.5:
        logfile = os.path.join(M.scratch, "log.txt")
        opts.append(("-lf", logfile))
        M.ev("log_file")
    args = options(rng, opts)
    M.note(args=args, text=c.text, data=[d[0] for d in c.datas], how=how)
    with environ(extra):
        want = by_class(c, data, extra, M.scratch, M, structure or "list", names, parse)
    out, err, rc = run_process(args, M, M.scratch, how, **extra)
    M.true(rc == 0, "command line failed", error=err, out=out)
    judge(M, c, out, fmt, structure, names, order, want, timing)
    level = (level or "WARNING").upper()
    logs = err
    if logfile:
        M.true(os.path.isfile(logfile), "no log file")
        M.true("[TTP " not in err, "logs printed in spite of the log file", err=err)
        with open(logfile, encoding="utf-8", errors="replace") as f:
            logs = f.read()
    seen = set(re.findall(r"\[TTP (\w+)\]", logs))
    ranks = ["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"]
    M.true(all(ranks.index(s) >= ranks.index(level) for s in seen), "logs of lower levels", seen=sorted(seen), level=level)
    if level in ("DEBUG", "INFO"):
        M.true("INFO" in seen, "logs of the level asked for are missing", seen=sorted(seen), level=level, logs=logs[:1000])
        M.ev("logs_seen")
    M.case((how, fmt, structure, bool(names), tuple(sorted(o for o, v in opts)), c.text), count(want) > 0)


def one_call(rng, M):
    """quick_parse against the class and the known results"""
    from ttp import quick_parse, ttp
    c, data, topts, extra, order = setup(rng, M)
    structure = rng.choice([None, "list", "dictionary", "flat_list"])
    allnames = [t["name"] for t in c.templates]
    names = rng.sample(allnames, rng.randint(1, len(allnames))) if rng.random() < 0.4 else []
    if names and rng.random() < 0.2:
        names = names[0]
    tk, pk, rk = {}, {}, {}
    if c.vars:
        tk["vars"] = c.vars
    if rng.random() < 0.2:
        tk["log_level"] = "ERROR"
    if rng.random() < 0.2:
        tk["base_path"] = M.scratch
    if rng.random() < 0.5:
        pk = rng.choice([{"one": True}, {"multi": False}, {"one": False, "multi": False}, {"one": True}])
    if rng.random() < 0.05:
        pk = {"multi": True}
        M.ev("call_multi")
    if structure:
        rk["structure"] = structure
    if names:
        rk["templates"] = names
    fmt = None
    if rng.random() < 0.3:
        fmt = rk["format"] = rng.choice(["json", "yaml", "raw", "pprint"])
        M.ev("call_format")
    template = dict(topts)["-t"] if "-tn" not in dict(topts) else c.text
    before = json.dumps([tk, pk, rk], sort_keys=True)
    style = rng.randint(0, 2)
    was = os.getcwd()
    M.note(text=c.text, data=[d[0] for d in c.datas], tk=tk, pk=pk, rk=rk)
    with environ(extra):
        os.chdir(M.scratch)
        try:
            if style == 0:
                got = quick_parse(data, template, tk or None, pk or None, rk or None)
            elif style == 1:
                got = quick_parse(template=template, data=data, ttp_kwargs=tk, parse_kwargs=pk, result_kwargs=rk)
            else:
                got = quick_parse(template=template, ttp_kwargs=dict(tk, data=data), parse_kwargs=pk, result_kwargs=rk)
                M.ev("call_no_data")
            M.ev("calls")
            if rng.random() < 0.3:
                again = quick_parse(template=template, data=data, ttp_kwargs=tk, parse_kwargs=pk, result_kwargs=rk)
                M.eq(again, got, "second call")
                M.ev("again")
            M.eq(json.dumps([tk, pk, rk], sort_keys=True), before, "arguments after the call")
            p = ttp(data=data, template=template, **tk)
            p.parse(**pk)
            want = p.result(**rk)
        finally:
            os.chdir(was)
    M.eq(got, want, "one-call function and class")
    exp = shape(c, [names] if isinstance(names, str) else names, structure or "list", order)
    if fmt in (None, "raw") and exp is not None:
        M.eq(got, exp, "one-call function and data known")
        M.ev("call_known")
    M.case((structure, bool(names), style, fmt, c.text), count(want) > 0)


def structured(rng, M):
    """data given as a structure reaches input macros as it is"""
    from ttp import quick_parse, ttp
    u, kw = gen.Uniq(rng), gen.word(rng)
    vals = [u() for _ in range(rng.randint(0, 4))]
    data = rng.choice([lambda: list(vals), lambda: {"lines": list(vals), "more": {"n": len(vals)}}, lambda: [{"v": v} for v in vals]])()
    keep = json.dumps(data)
    tpl = ("<macro>\ndef totext(data):\n    items = data[\"lines\"] if isinstance(data, dict) else data\n    return \"\\n~\\n\" + \"\".join(\"%s %%s\\n\" %% (i[\"v\"] if isinstance(i, dict) else i) for i in items) + \"\\n\"\n</macro>\n"
           "<input name=\"Default_Input\" macro=\"totext\"/>\n<group name=\"g*\">\n%s {{ x }}\n</group>") % (kw, kw)
    M.note(template=tpl, data=data)
    M.ev("structured_data")
    exp = [[{"g": [{"x": v} for v in vals]} if vals else {}]]
    p = ttp(data, tpl)
    p.parse()
    M.eq(p.result(), exp, "class given a structure")
    if data:
        M.eq(quick_parse(data, tpl), exp, "one-call function given a structure")
    M.eq(json.dumps(data), keep, "structure of the caller")
    M.case((tpl, keep), nontrivial=bool(vals))


def prefix(rng, M):
    """base path of inputs: -dp and base_path"""
    from ttp import quick_parse, ttp
    u = gen.Uniq(rng)
    k = gen.words(rng, 6)
    base = os.path.join(M.scratch, "base" + rng.choice(["", " dir", "/x"]))
    n = rng.randint(1, 3)
    text, want, decoy = [], {}, 0
    for i in range(n):
        t, v = "%s %s\n" % (k[0], u()), u
        files = rng.randint(1, 2)
        vals = []
        for j in range(files):
            val = u("f")
            os.makedirs(os.path.join(base, "in%d" % i), exist_ok=True)
            with open(os.path.join(base, "in%d" % i, "f%d.txt" % j), "w") as f:
                f.write("%s %s\nend %s\n" % (k[i], val, u()))
            vals.append(val)
        form = rng.choice(["/in%d/", "in%d/", "/in%d", "in%d"])
        if not base.endswith("/") and not form.startswith("/"):
            form = "/" + form
        text.append('<input name="i%d" groups="g%d" load="python">\nurl = "%s"\n</input>\n<group name="g%d*">\n%s {{ val }}\n</group>' % (i, i, form % i, i, k[i]))
        want["g%d" % i] = sorted(vals)
    text = "\n".join(text).replace('groups="g', 'groups="g')
    text = re.sub(r'groups="(g\d+)"', r'groups="\1*"', text)
    # same folder names without the prefix must not be used
    M.write("in0/f0.txt", "%s wrong\n" % k[0])
    M.note(text=text)
    tpath = M.write("t.txt", text)

    def gather(res):
        got = {}
        for r in res[0]:
            for g, l in r.items():
                got.setdefault(g, []).extend(x["val"] for x in l)
        return {g: sorted(v) for g, v in got.items()}
    out, e = run_cli(options(rng, [("-t", tpath), ("-dp", base), ("-o", "json")]), M, M.scratch)
    M.true(e is None, "command line failed", error=repr(e))
    p = ttp(template=text, base_path=base)
    p.parse(one=True)
    q = quick_parse(template=tpath, ttp_kwargs={"base_path": base})
    M.eq(gather(p.result()), want, "inputs under base path")
    M.eq(json.loads(out), p.result(), "command line with data prefix")
    M.eq(q, p.result(), "one-call function with base path")
    # data given replaces or joins the data of the template
    if rng.random() < 0.4:
        val = u("d")
        out, e = run_cli(options(rng, [("-t", tpath), ("-dp", base), ("-o", "json"), ("-d", "%s %s\nend %s\n" % (k[0], val, u()))]), M, M.scratch)
        M.true(e is None, "command line failed", error=repr(e))
        got = gather(json.loads(out))
        M.true(val in got.get("g0", []), "data given is parsed", out=out)
        M.true(got.get("g0") in ([val], sorted(want["g0"] + [val])), "nothing but data given and own data is parsed", out=out)
        M.ev("prefix_data")
    M.ev("prefix")
    M.case((n, text), True)


def wrong(rng, M):
    """uses that cannot give results end with an error and print no results"""
    c, data, topts, extra, order = setup(rng, M)
    kind = rng.choice(["vars_list", "vars_text", "name", "both", "no_template", "option", "no_data", "path"])
    opts = dict(topts)
    opts["-d"] = data
    opts["-o"] = rng.choice(["json", "yaml", "raw", "pprint"])
    if c.vars:
        opts["-v"] = json.dumps(c.vars)
    err = True
    empty = None
    if kind == "vars_list":
        opts["-v"] = rng.choice(['["a"]', '"a"', "1", "null", "true", "['a']"])
    elif kind == "vars_text":
        opts["-v"] = rng.choice(["a=b", '{"a": }', "{a: 1}", '{"a": "b"', "'"])
    elif kind == "name":
        path = M.write("names.py", "a = %r\n" % c.text)
        opts["-t"], opts["-tn"] = path, "b"
    elif kind == "both":
        opts["--one"] = opts["--multi"] = None
    elif kind == "no_template":
        opts.pop("-t")
        opts.pop("-tn", None)
        err, empty = False, []
    elif kind == "option":
        opts["--unknown-option"] = None
    elif kind == "no_data":
        opts.pop("-d")
        err = False
    else:
        # no such file: the path is the template
        opts.pop("-tn", None)
        opts["-t"] = os.path.join(M.scratch, "none.txt")
        err = False
    with environ(extra):
        args = options(rng, opts.items())
        M.note(args=args)
        out, e = run_cli(args, M, M.scratch)
        M.ev("wrong_" + kind)
        if err:
            M.true(e is not None, "wrong use is accepted", out=out, kind=kind)
            M.true(out == "", "results printed in spite of the error", out=out, kind=kind)
        else:
            M.true(e is None, "command line failed", error=repr(e), kind=kind)
            got = decode(opts["-o"], out, M)
            if kind == "no_template":
                want = []
            elif kind == "path":
                want = by_class_text(opts["-t"], data, c, M)
            else:
                want = by_class(c, None, extra, M.scratch, M, "list", [])
            M.eq(got, want, "results of the command line", kind=kind)
    M.case((kind, c.text, opts.get("-v")), True)


def by_class_text(text, data, c, M):
    from ttp import ttp
    was = os.getcwd()
    os.chdir(M.scratch)
    try:
        p = ttp(data=data, template=text, vars=dict(c.vars))
        p.parse(one=True)
        return p.result()
    finally:
        os.chdir(was)


def outputs(rng, M):
    """outputs of templates: printed and written as with the class, results printed after them once"""
    from ttp import quick_parse, ttp
    u = gen.Uniq(rng)
    k, a = gen.words(rng, 2)
    vals = [u() for _ in range(rng.randint(1, 5))]
    data = "".join("%s %s\n" % (k, v) for v in vals)
    fo = rng.choice(["json", "raw", "pprint", "yaml"])
    ret = rng.choice(["terminal", "file", "self", "terminal", "file"])
    folder = os.path.join(M.scratch, "out")
    text = '<group name="g*">\n%s {{ %s }}\n</group>\n<output name="o" format="%s" returner="%s"%s/>' % (k, a, fo, ret, ' url="%s" filename="r.txt"' % folder if ret == "file" else "")
    want = [[{"g": [{a: v} for v in vals]}]]
    tpath = M.write("t.txt", text)
    dpath = M.write("d.txt", data)
    fmt = rng.choice(["raw", None, "json"])
    opts = [("-t", tpath), ("-d", dpath)] + ([("-o", fmt)] if fmt else [])
    M.note(text=text, data=data, opts=opts)
    out, e = run_cli(options(rng, opts), M, M.scratch)
    M.true(e is None, "command line failed", error=repr(e))
    ftext = None
    if ret == "file":
        with open(os.path.join(folder, "r.txt"), encoding="utf-8") as f:
            ftext = f.read()
        os.remove(os.path.join(folder, "r.txt"))
    so = io.StringIO()
    with contextlib.redirect_stdout(so):
        p = ttp(data=dpath, template=tpath)
        p.parse(one=True)
        res = p.result()
    printed = so.getvalue()
    if ret == "file":
        with open(os.path.join(folder, "r.txt"), encoding="utf-8") as f:
            M.eq(ftext, f.read(), "file written by the command line and by the class")
        M.eq(decode_loose(fo, ftext), want[0], "file written by the command line")
        M.true(printed == "", "class printed", out=printed)
    M.true(out.startswith(printed), "output of the template printed by the class", out=out, printed=printed)
    rest = out[len(printed):]
    if ret == "terminal":
        M.eq(decode_loose(fo, printed), want[0], "output printed")
    if fmt is None:
        M.true(rest == "", "results printed with no format asked for", out=rest)
    elif fmt == "raw" or isinstance(res, list):
        M.eq(decode(fmt, rest, M), res, "results after outputs")
        if ret != "self" or fo == "raw":
            M.eq(res, want, "results of template with output")
    so = io.StringIO()
    with contextlib.redirect_stdout(so):
        q = quick_parse(data, text)
    M.eq(q, res, "one-call function")
    M.eq(so.getvalue(), printed, "printed by the one-call function")
    M.ev("outputs_" + ret)
    M.case((ret, fo, fmt, text), True)


def decode_loose(fmt, text):
    import yaml
    if fmt == "json":
        return json.loads(text)
    if fmt == "yaml":
        return yaml.safe_load(text)
    return literal(text.strip())


KINDS = {"cli": (cli, 1800, 30000), "process": (process, 64, 1200), "one_call": (one_call, 1500, 25000), "prefix": (prefix, 150, 4000), "wrong": (wrong, 250, 6000), "outputs": (outputs, 200, 5000), "structured": (structured, 300, 6000)}
