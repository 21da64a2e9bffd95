"""P25 - objects and files belonging to the caller are left as they were."""
import copy
import csv
import hashlib
import io
import json
import logging
import os
import sys
import warnings

import gen

RULE = ("nested variables, lists and dictionaries, structured inputs, group and template lists, result options, function objects and texts are handed to every method of the API, in random sequences, over templates that use them in every function taking "
        "variables or tables (set, let, lookups, record, validation with all kinds of schema, contains, replaceall, default, sformat, macros reading them, formatters with headers, jinja2, outputs); template, include, extend, lookup and data files are "
        "read from a folder. Deep snapshots (values, types and order, and identity of nested containers) of every object are compared after each call, digests, times, modes and listings of files after each history, with the state of the process (folder, environment, "
        "module path, logging, warnings). The same objects are shared by two parsers used in turns, whose results must equal those of parsers with fresh copies; result items held from every step are compared with their snapshots at the end. "
        "Non-trivial: results carry values coming from the objects.")
NEED = {"held_before_clear": 539, "crossing": 1360, "files": 2044, "files_class": 228, "files_multi": 14, "files_output": 151, "files_quick": 244, "held": 9583, "snapshots": 383630, "step_add_input": 1623, "step_add_lookup":
        1598, "step_add_template": 1641, "step_add_vars": 1620, "step_clear_input": 1598, "step_clear_result": 1618, "step_get": 1614, "step_parse": 15556, "step_quick": 1610, "step_result": 12229, "step_set_input": 4878,
        "watched": 24856}
ASSUME = ["a list that result() returned may grow with the results of later parsing: its items are compared", "macros written by the user that modify what they are given are not decided"]


# ---- snapshots

def snap(o, memo=None):
    """values, types, order and identities of containers"""
    if isinstance(o, dict):
        return ("d", id(o), [(snap(k), snap(v)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, id(o), [snap(v) for v in o])
    if isinstance(o, (set, frozenset)):
        return (type(o).__name__, id(o), sorted(map(repr, o)))
    if callable(o):
        return ("f", id(o), sorted(getattr(o, "__dict__", {}).items(), key=repr), sorted((k, id(v)) for k, v in getattr(o, "__globals__", {}).items() if k != "_ttp_") if hasattr(o, "__globals__") else 0)
    return (type(o).__name__, repr(o))


class Watch:
    def __init__(self, M):
        self.M = M
        self.objs = []

    def add(self, name, o):
        self.objs.append((name, o, snap(o), copy.deepcopy(o) if not callable(o) else None))
        self.M.ev("watched")
        return o

    def check(self, where):
        for name, o, s, c in self.objs:
            self.M.ev("snapshots")
            if snap(o) != s:
                self.M.fail("object of the caller was modified", object=name, where=where, before=c, after=o)


def process_state():
    root = logging.getLogger()
    return {"cwd": os.getcwd(), "environ": dict(os.environ), "path": list(sys.path), "argv": list(sys.argv), "root": (root.level, list(map(id, root.handlers))), "warnings": list(map(repr, warnings.filters)),
            "stdout": id(sys.stdout), "stderr": id(sys.stderr), "recursion": sys.getrecursionlimit(), "cwdlist": None}


def tree(root):
    out = {}
    for d, dirs, files in os.walk(root):
        for n in dirs + files:
            p = os.path.join(d, n)
            st = os.lstat(p)
            h = ""
            if os.path.isfile(p):
                with open(p, "rb") as f:
                    h = hashlib.md5(f.read()).hexdigest()
            out[os.path.relpath(p, root)] = (st.st_mode, st.st_size if h else 0, st.st_mtime_ns, st.st_ino, h)
    return out


# ---- templates using objects in every way

def nested(rng, u, depth=0):
    r = rng.random()
    if depth > 2 or r < 0.3:
        return rng.choice([u(), rng.randint(0, 99), None, True, 1.5, u("é")])
    if r < 0.65:
        return [nested(rng, u, depth + 1) for _ in range(rng.randint(0, 3))]
    return {u("k"): nested(rng, u, depth + 1) for _ in range(rng.randint(0, 3))}


def schema(rng, names, depth=0):
    s = {}
    for n in names:
        r = {}
        k = rng.randint(0, 9)
        if k == 0:
            r["anyof_type"] = ["integer", "string"]
        elif k == 1:
            r["oneof_regex"] = ["[a-z].*", "\\d+"]
        elif k == 2:
            r = {"type": "string", "allowed": ["a1", "b2"]}
        elif k == 3:
            r = {"type": "string", "noneof_regex": ["zz.*"]}
        elif k == 4:
            r = {"type": "string", "regex": ".*", "required": rng.random() < 0.5}
        elif k == 5:
            r = {"type": "dict", "schema": schema(rng, names[:1], depth + 1) if depth < 2 else {}, "keyschema": {"type": "string"}}
        elif k == 6:
            r = {"type": ["list", "string"], "schema": {"anyof_type": ["string", "integer"]}}
        elif k == 7:
            r = {"coerce": str, "default": ["x"]}
        elif k == 8:
            r = {"anyof": [{"type": "string", "anyof_regex": ["a.*", ".*"]}, {"type": "integer"}]}
        else:
            r = {"type": "string", "empty": False, "dependencies": [], "excludes": ["nope"], "nullable": True}
        s[n] = r
    return s


class World:
    """objects, templates and data of a case"""

    def __init__(self, rng, M):
        self.rng, self.M, self.u = rng, M, gen.Uniq(rng)
        u = self.u
        self.k = gen.words(rng, 12)
        self.n = gen.words(rng, 10)
        self.vals = [u("a") for _ in range(4)] + [str(rng.randint(0, 99)) for _ in range(2)]
        v = self.vals
        self.vars = {
            "vtext": u("t"), "vlist": [u("l"), [u("l"), {"q": [u()]}]], "vdict": {u("k"): u(), "deep": {"lst": [u(), u()], "n": 1}}, "vint": 7, "vmix": nested(rng, u), "vpats": [rng.choice(v), u("p")],
            "vrepl": {u("new"): [v[0], v[1]], "gone": v[2]}, "vtable": {x: {"role": u("r"), "tags": [u("g")]} for x in v[:3]}, "vschema": schema(rng, self.n[:3]), "vname": rng.choice(v), "vempty": rng.choice([[], {}, ""]),
            "vheads": list(self.n[:3]), "vjoin": [u("j")], "vnames": {"sub": [u("s")]},
        }

    def group(self, i):
        """one group and its lines"""
        rng, n, k = self.rng, self.n, self.k[3 * i:3 * i + 3]
        first = rng.choice([
            "", ' | set("vlist")', ' | lookup("vtable")', ' | lookup("tbl", add_field="info")', ' | lookup("tbl")', ' | gpvlookup("pats", add_field="pv")', ' | rlookup("pats", add_field="rv")', ' | contains("vname", "a", "1", "é")',
            ' | replaceall("x", "vrepl")', ' | replaceall("-", "vpats")', ' | exclude("vname")', ' | notequal("vname")', ' | macro("rd")', ' | macro("rd2")', ' | record("recd")', ' | let("lt", "vlist")', ' | append("vtext")', ' | prepend("vtext")',
            ' | copy("cp") | upper', ' | sformat("{{}}-x")'.replace("{{}}", "{}"), ' | to_list', ' | to_list | joinmatches', ' | joinmatches(",")', ' | count(var="cn", globvar="cg")', ' | custom("vlist")', ' | resub("a", "vtext")', ' | unrange("-", ",")',
            ' | split("-")', ' | split("-") | joinmatches', ' | default("vlist")', ' | default("vdict")', ' | default([])', ' | item(0) | to_str'])
        second = rng.choice(["", " | joinmatches", " | to_list | joinmatches", ' | default("vlist")', ' | default("d")', ' | to_int', ' | lookup("tbl", add_field="i2")', ' | set("vdict")', ' | macro("rd")'])
        sets = "".join('\n{{ %s | set("%s")%s }}' % (x, y, rng.choice(["", " | joinmatches"]) if rng.random() < 0.2 else "") for x, y in
                       zip(gen.words(rng, 3), rng.sample(["vtext", "vlist", "vdict", "vint", "vmix", "vempty", "recd", "vnames"], rng.randint(0, 3))))
        attr = rng.choice(['', '', ' set="vlist, gl"', ' functions="set(vdict, gd) | set(vlist, gl)"', ' macro="grd"', ' cerberus="vschema, add_errors=True"', ' validate="schema=vschema, errors=\'er\', info=\'{%s}\'"' % n[0], ' expand=""', ' to_int=""',
                           ' itemize="%s, path=\'it.%s\'"' % (n[0], n[3]) if False else '', ' sformat="string=\'{%s} {vdict}\', add_field=\'sf\'"' % n[0], ' lookup="%s, name=\'tbl\', add_field=\'gi\'"' % n[0], ' lookup="%s, name=\'tbl\', update=True"' % n[0],
                           ' gcustom="vlist"', ' default="vlist"', ' default="dflt"', ' record="%s, recd"' % n[0], ' set="vmix, gm"', ' containsall="%s"' % n[0], ' items2dict="key_name=\'%s\', value_name=\'%s\'"' % (n[0], n[1]) if False else '', ' del="%s"' % n[2]])
        path = rng.choice(["g%s" % "abc"[i], "g%s*" % "abc"[i], "g%s.{{ %s }}" % ("abc"[i], n[1]), "vr.x%s*" % "abc"[i], "vr.deep.lst*", "g%s.gl*" % "abc"[i], None])
        child = ""
        lines = "%s {{ %s%s }}\n %s {{ %s%s }} {{ %s }}%s" % (k[0], n[0], first, k[1], n[1], second, n[2], sets)
        if path and rng.random() < 0.4:
            child = '\n<group name="%s">\n  %s {{ %s }}\n</group>' % (rng.choice(["gl*", "gd.deep.lst*", "info.tags*", "gi.tags*", "ch", "gl", "gd"]), k[2], n[4])
        return ('<group name="%s"%s>\n' % (path, attr) if path else "<group%s>\n" % attr) + lines + child + "\n</group>", path

    def template(self):
        """text of a template using the objects"""
        rng = self.rng
        n = rng.randint(1, 3)
        groups = [self.group(i) for i in range(n)]
        if any(p is None for g, p in groups):
            groups = groups[:1]
        self.paths = [p for g, p in groups]
        table = {v: {"role": self.u("r"), "tags": [self.u("g")]} for v in self.vals[:4]}
        pats = {"g1": {self.u("q"): self.vals[:2], "x": [".*a.*"]}, "x": self.vals[2:4]}
        text = '<lookup name="tbl" load="json">\n%s\n</lookup>\n<lookup name="pats" load="python">\n%r\n</lookup>\n' % (json.dumps(table), pats)
        text += '<macro>\ndef rd(data):\n    return data, {"mx": _ttp_["vars"]["vlist"]}\ndef rd2(data):\n    return _ttp_["vars"]["vdict"]\ndef grd(data):\n    data["gm"] = _ttp_["vars"]["vlist"]\n    return data\ndef txt(data):\n    return "\\n".join(data["lines"]) if isinstance(data, dict) else "\\n".join(data)\ndef orm(data):\n    return [data, _ttp_["vars"].get("vlist")]\n</macro>\n'
        if rng.random() < 0.5:
            text += rng.choice(['<vars name="vr">\nvtag = ["x", {"y": ["z"]}]\n</vars>\n', '<vars>\nvtag = {"y": ["z"]}\n</vars>\n', '<vars name="vr.deep">\nlst = ["x"]\n</vars>\n'])
        text += '<input name="st" macro="txt"/>\n' + "\n".join(g for g, p in groups)
        if rng.random() < 0.5:
            text += "\n" + rng.choice(['<output validate="vschema, errors=\'er\', info=\'i\'"/>', '<output dict_to_list="key_name=\'nm\', path=\'ga\'"/>', '<output macro="orm"/>', '<output name="o" format="pprint"/>', '<output name="o" ocustom="vlist"/>',
                                       '<output name="o" load="python">\nformat = "tabulate"\nheaders = "%s"\n</output>' % ",".join(self.n[:2]), '<output deepdiff="input_before=\'st\', input_after=\'Default_Input\', add_field=\'df\'"/>',
                                       '<output format="jinja2">\n{% for i in _data_ %}{{ i }}\n{% endfor %}</output>'])
        if rng.random() < 0.3:
            text = '<template name="one" results="%s">\n%s\n</template>\n<template name="two">\n%s {{ %s }}\n</template>' % (rng.choice(["per_input", "per_template"]), text, self.k[0], self.n[0])
        return text

    def lines(self):
        rng, out = self.rng, []
        for _ in range(rng.randint(1, 8)):
            i = rng.randint(0, 2)
            k = self.k[3 * i:3 * i + 3]
            out.append("%s %s" % (k[0], rng.choice(self.vals)))
            for _ in range(rng.randint(0, 2)):
                out.append(" %s %s %s" % (k[1], rng.choice(self.vals), rng.choice(self.vals)))
            for _ in range(rng.randint(0, 2)):
                out.append("  %s %s" % (k[2], rng.choice(self.vals)))
        out.append("~ %s" % self.u())
        return out


def custom(data, *a):
    return data, {"cu": list(a)}


def gcustom(data, *a):
    data["gcu"] = list(a)
    return data, None


def ocustom(data, *a):
    return {"oc": data, "a": list(a)}


def attempt(f):
    """result or error of a step: both are compared"""
    try:
        return ("ok", f())
    except (TimeoutError, MemoryError):
        raise
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        return ("error", type(e).__name__)


def items(r):
    if isinstance(r, dict):
        return [x for v in r.values() for x in (v if isinstance(v, list) else [v])]
    if isinstance(r, list):
        return [x for v in r for x in (v if isinstance(v, list) else [v])]
    return [r]


class Args:
    """arguments of a history of calls, the same for every parser that follows it"""

    def __init__(self, w, rng):
        self.vars = w.vars
        self.text = w.text
        self.more = {"vtext": w.u("m"), "vmore": [w.u(), [w.u()]], "vdict": {"deep": {"lst": [w.u("n")], "n": 2}, "z": [1]}}
        self.steps = []
        self.lookup = json.dumps({w.vals[0]: {"role": "api", "tags": [w.u()]}})
        names = ["_root_template_"] if "<template" not in w.text else ["one", "two"]
        for _ in range(rng.randint(2, 6)):
            s = rng.choice(["add_input", "set_input", "set_input", "parse", "parse", "result", "add_vars", "add_lookup", "structured", "clear_input", "clear_result", "quick", "add_template", "get"])
            if s in ("add_input", "set_input"):
                self.steps.append((s, {"data": "\n".join(w.lines()), "template_name": "_all_", "groups": rng.choice([None, ["all"], [p for p in w.paths if p] or None])}))
                self.steps.append(("parse", {}))
                self.steps.append(("result", {"structure": rng.choice(["list", "dictionary", "flat_list"]), "templates": rng.choice([None, list(names), names[:1]])}))
            elif s == "structured":
                self.steps.append(("set_input", {"data": rng.choice([w.lines(), {"lines": w.lines(), "other": {"x": [1]}}]), "template_name": "_all_", "input_name": "st"}))
                self.steps.append(("parse", {}))
            elif s == "result":
                kw = rng.choice([{"structure": "dictionary"}, {"structure": "flat_list"}, {"templates": list(names)}, {"format": "json"}, {"format": "yaml"}, {"format": "tabulate", "headers": list(w.n[:2])}, {"format": "table", "headers": list(w.n[:3])},
                                 {"format": "csv", "headers": list(w.n[:3]), "path": "ga"}, {"returner": "self", "format": "pprint"}, {"functions": "dict_to_list(key_name='nm')"}])
                self.steps.append(("result", kw))
            elif s == "add_vars":
                self.steps.append((s, {"vars": self.more}))
            elif s == "add_lookup":
                self.steps.append((s, {"name": "tbl", "text_data": self.lookup, "load": "json"}))
            elif s == "add_template":
                self.steps.append((s, {"template": "%s {{ %s | set('vlist') }}" % (w.k[0], w.n[0]) if rng.random() < 0.5 else '<template name="e1">\n%s {{ q }}\n</template>\n<template name="e2">\n%s {{ q }}\n</template>' % (w.k[0], w.k[0]),
                                       "template_name": "ex", "filters": rng.choice([None, ["e1"], ["e1", "one", "_root_template_"]])}))
            elif s == "quick":
                self.steps.append((s, {"data": "\n".join(w.lines()), "template": w.text, "ttp_kwargs": {"vars": w.vars}, "parse_kwargs": {"one": True}, "result_kwargs": {"structure": "list", "templates": list(names)}}))
            else:
                self.steps.append((s, {}))
        self.steps += [("parse", {}), ("result", {})]

    def fresh(self):
        o = copy.copy(self)
        o.vars, o.more, o.steps = copy.deepcopy(self.vars), copy.deepcopy(self.more), copy.deepcopy(self.steps)
        for s, kw in o.steps:
            if s == "quick":
                kw["ttp_kwargs"]["vars"] = o.vars
            elif s == "add_vars":
                kw["vars"] = o.more
        return o


class Run:
    """one parser following the steps"""

    def __init__(self, args, M, held=None):
        from ttp import ttp
        self.args, self.M, self.held, self.log = args, M, held, []
        self.p = ttp(vars=args.vars)
        self.p.add_function(custom, scope="match")
        self.p.add_function(gcustom, scope="group")
        self.p.add_function(ocustom, scope="output")
        self.log.append(attempt(lambda: self.p.add_template(args.text)))
        self.i = 0

    def step(self):
        s, kw = self.args.steps[self.i]
        self.i += 1
        p = self.p
        if s == "clear_result" and self.held is not None:
            # results obtained before are those of the caller
            old = p.result()
            self.held.append((self.i, s, old, copy.deepcopy(old)))
            self.M.ev("held_before_clear")
        if s == "parse":
            r = attempt(lambda: p.parse(one=True))
        elif s == "quick":
            from ttp import quick_parse
            r = attempt(lambda: quick_parse(**kw))
        elif s == "get":
            r = attempt(lambda: (p.get_input_load(), p.get_template()))
        else:
            r = attempt(lambda: getattr(p, s)(**kw))
        self.M.ev("step_" + s)
        if r[0] == "ok" and s in ("result", "quick"):
            if self.held is not None:
                for it in items(r[1]):
                    self.held.append((self.i, s, it, copy.deepcopy(it)))
            r = ("ok", copy.deepcopy(r[1]))
        elif s not in ("result", "quick"):
            r = (r[0], None if r[0] == "ok" else r[1])
        if r[0] == "error":
            self.M.ev("errors")
        self.log.append((s, r))
        return s

    @property
    def done(self):
        return self.i >= len(self.args.steps)


def leaves(o, acc):
    if isinstance(o, dict):
        for k, v in o.items():
            acc.add(str(k))
            leaves(v, acc)
    elif isinstance(o, (list, tuple)):
        for v in o:
            leaves(v, acc)
    else:
        acc.add(str(o))
    return acc


def plain(o):
    """comparable form of a log"""
    return repr(o)


def objects(rng, M):
    w = World(rng, M)
    w.text = w.template()
    args = Args(w, rng)
    M.note(template=w.text, steps=args.steps, vars=w.vars)
    alone = Run(args.fresh(), M)
    while not alone.done:
        alone.step()
    W = Watch(M)
    W.add("vars", args.vars)
    W.add("vars of add_vars", args.more)
    for s, kw in args.steps:
        W.add("arguments of " + s, kw)
    for f in (custom, gcustom, ocustom):
        W.add("function", f)
    state = process_state()
    held = []
    a = Run(args, M, held)
    W.check("template loaded")
    b = None
    while not a.done:
        s = a.step()
        W.check(s)
        if b is None and rng.random() < 0.4:
            b = Run(args, M)
        if b is not None and not b.done and rng.random() < 0.7:
            b.step()
            W.check("other parser")
    if b is None:
        b = Run(args, M)
    while not b.done:
        b.step()
    W.check("other parser")
    M.eq(plain(a.log), plain(alone.log), "results of a parser given shared objects and one given copies")
    M.eq(plain(b.log), plain(alone.log), "results of the second parser given the same objects")
    for i, s, it, was in held:
        M.ev("held")
        if repr(it) != repr(was):
            M.fail("result item obtained earlier was changed by a later call", step=i, call=s, before=was, after=it)
    now = process_state()
    for k in state:
        M.eq(now[k], state[k], "state of the process", part=k)
    got = leaves([r for x in a.log if isinstance(x, tuple) for r in x], set())
    mine = leaves([w.vars, args.more], set())
    if got & mine:
        M.ev("crossing")
    if sum(1 for x in a.log if x[0] in ("result", "quick") and x[1][0] == "error"):
        M.ev("error_results")
    M.case((w.text, len(args.steps)), bool(got & mine))


def files(rng, M):
    """every kind of file read, none changed"""
    was = os.getcwd()
    os.makedirs(os.path.join(M.scratch, "cwd"))
    os.chdir(os.path.join(M.scratch, "cwd"))
    try:
        files_in(rng, M)
    finally:
        os.chdir(was)


def files_in(rng, M):
    from ttp import quick_parse, ttp
    w = World(rng, M)
    u = w.u
    root = os.path.join(M.scratch, "in")
    os.makedirs(root)

    def put(name, text):
        return M.write("in/" + name, text)
    for i in range(rng.randint(1, 3)):
        put("data/f%d.txt" % i, "\n".join(w.lines()) + rng.choice(["", "\n", "\r\n"]))
    put("data/other.bin", "zz")
    v = {"ivar": [u("i"), {"x": u()}]}
    kind = rng.choice(["python", "json", "yaml"])
    put("vars." + kind, {"python": "ivar = %r\n" % v["ivar"], "json": json.dumps(v), "yaml": json.dumps(v)}[kind])
    f = io.StringIO()
    cw = csv.writer(f, lineterminator="\n")
    cw.writerow(["id", "role"])
    for x in w.vals[:3]:
        cw.writerow([x, u("r")])
    put("tbl.csv", f.getvalue())
    put("ext.txt", "\n%s {{ %s | lookup('tbl', add_field='info') }}\n %s {{ %s }} {{ %s }}\n{{ iv | set('ivar') }}\n" % (w.k[0], w.n[0], w.k[1], w.n[1], w.n[2]))
    out = os.path.join(M.scratch, "out")
    text = '<vars load="%s" include="%s"/>\n<lookup name="tbl" load="csv" include="%s"/>\n<group name="g*">\n<extend template="%s"/>\n</group>\n' % (kind, os.path.join(root, "vars." + kind), os.path.join(root, "tbl.csv"), os.path.join(root, "ext.txt"))
    own = rng.random() < 0.5
    if own:
        text = '<input name="i1" load="python">\nurl = "/data/"\nextensions = ["txt"]\n</input>\n' + text
    o = rng.random() < 0.6
    if o:
        text += '<output returner="file" format="%s" url="%s" filename="r.txt"/>\n' % (rng.choice(["json", "yaml", "pprint"]), out)
    tpath = put("t.txt", text)
    if rng.random() < 0.3:
        os.chmod(tpath, 0o444)
    before = tree(root)
    state = process_state()
    res = []
    for i in range(rng.randint(1, 3)):
        how = rng.choice(["class", "quick", "multi"] if rng.random() < 0.1 else ["class", "quick"])
        kw = {"base_path": root} if own else {"data": os.path.join(root, "data") + "/"}
        if how == "quick":
            res.append(quick_parse(template=tpath, ttp_kwargs=kw))
        else:
            p = ttp(template=tpath, **kw)
            p.parse(**({"multi": True} if how == "multi" else {"one": True}))
            res.append(copy.deepcopy(p.result()))
            p.clear_input()
            p.set_input(os.path.join(root, "data", "f0.txt"))
            p.parse(one=True)
            p.result()
            p.clear_result()
        M.ev("files_" + how)
    M.eq(tree(root), before, "files and folder of the caller")
    M.eq(os.listdir("."), [], "files in the current folder")
    M.eq(sorted(os.listdir(M.scratch)), ["cwd", "in"] + ["out"] * o, "folders written")
    if o:
        M.eq(os.listdir(out), ["r.txt"], "files written")
        M.ev("files_output")
    now = process_state()
    for k in state:
        M.eq(now[k], state[k], "state of the process", part=k)
    M.ev("files", len(before))
    for r in res[1:]:
        M.eq(sorted(map(repr, r[0])), sorted(map(repr, res[0][0])), "results of the same files")
    M.case((text,), any(x for x in res[0][0]))


KINDS = {"objects": (objects, 4800, 60000), "files": (files, 640, 8000)}
