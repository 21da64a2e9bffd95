"""P15 - parser objects in one process do not influence each other."""
import copy
import os
import pickle
import struct
import sys
import types

import gen

RULE = ("generated scripts of calls on 2-6 parser objects (constructor options, templates, macros, registered functions, lookups, variables, recorded and global values, extended templates, outputs, formatted results; all use the same "
        "names for different content) are executed in this process in a random alternation - call by call, and from inside of macros and registered functions of another parser that is parsing - with broken templates and failing macros in "
        "between; each script is also executed alone in a process forked from one that never made a parser. All values read back have to be equal. Non-trivial: at least two parsers were live at once and a result was read.")
NEED = {"late_paths": 722, "path_characters": 721, "group_outputs": 707, "same_declarations": 706, "scripts": 1519, "alternations": 9562, "inside_calls": 1402, "solo_processes": 1519, "results_compared": 3269, "macro_clash":
        1347, "function_clash": 1384, "lookup_clash": 718, "vars_clash": 1412, "recorded": 714, "globals": 712, "failed_parsers": 212, "failing_macros": 204, "formatted": 611, "extended": 736, "key_to_int": 435,
        "dropped_parsers": 576, "quick": 4, "interleaved_live": 15730}

HOOK = types.ModuleType("vphook")
HOOK.step = lambda *a: None
sys.modules["vphook"] = HOOK


# ------------------------------------------------------------------ scripts: plain data, executed anywhere
def make_script(rng, M, index, scratch):
    """list of (operation, arguments)"""
    tag = "s%d%s" % (index, gen.word(rng, 2, 3))
    ops = []
    f = {x for x in ("macro", "gmacro", "fun", "gfun", "lookup", "vars", "record", "count", "dyn", "extend", "output", "imacro", "host", "chain", "re", "nested", "gout", "getter", "ttpfun", "same", "path", "latedyn", "outs") if rng.random() < 0.5}
    hook = rng.random() < 0.6
    call = "import vphook; vphook.step()" if hook else "pass"
    mac = ""
    if f & {"macro", "gmacro", "imacro", "output"}:
        M.ev("macro_clash")
        mac = "<macro>\ndef mac1(data):\n    before = sorted(k for k in _ttp_['macro'])\n    %s\n    return data + '-%s' + ('' if before == sorted(_ttp_['macro']) else '?')\n</macro>\n" % (call, tag)
        mac += "<macro>\ndef mac2(data):\n    %s\n    return dict(data, m2='%s')\ndef mac3(data):\n    return dict(data, m3=[_ttp_['vars'].get('va', 'none'), '%s'])\n</macro>\n" % (call, tag, tag)
        mac += "<macro>\ndef mac4(data):\n    %s\n    return data.replace('rec ', 'rec %s')\ndef mac5(data):\n    %s\n    return {'out': data, 'by': '%s'}\n</macro>\n" % (call, tag[:1], call, tag)
    va = "va-%s" % tag
    variables = ""
    if f & {"vars", "record", "host", "chain", "re", "getter"}:
        M.ev("vars_clash")
        variables = "<vars%s>\nva = \"%s\"\nvb = [\"%s\", \"x\"]\nch = \"upper | append('%s')\"\npat = \"%s\"\n%s%s%s</vars>\n" % (
            rng.choice(["", " name=\"vars\"", " name=\"rep.vars\""]), va, tag, tag, rng.choice(["\\\\S+", "[a-z].*?", ".+"]), "last = \"%s\"\n" % tag if rng.random() < 0.5 else "", "host = \"gethostname\"\n" if "host" in f else "",
            "got = \"get1\"\n" if "getter" in f else "")
    lookup = ""
    if "lookup" in f:
        M.ev("lookup_clash")
        lookup = "<lookup name=\"tbl\" load=\"python\">\n%r\n</lookup>\n" % {"ka": "A" + tag, "kb": {"x": tag}}
    chain = "n"
    if "macro" in f:
        chain += " | macro('mac1')"
    if "fun" in f:
        chain += " | fun1('%s')" % tag
    if "chain" in f:
        chain += " | chain('ch')"
    if "ttpfun" in f:
        chain += " | fun3"
    grp = " name=\"%s\"" % rng.choice(["g*", "g.{{ n }}*" if "dyn" in f else "g*", "g"])
    if "gmacro" in f:
        grp += " macro=\"mac2, mac3\""
    if "gfun" in f:
        grp += " fun2=\"'%s'\"" % tag
    if "vars" in f:
        grp += " set=\"va\""
    body = "<group%s>\nrec {{ %s }}\n opt {{ o%s | default(\"%s\") }}\n" % (grp, chain, " | re(\"pat\")" if "re" in f else "", tag)
    if "same" in f:
        # the same declarations on different lines
        M.ev("same_declarations")
        body += "".join(" %s{{ %s | %s }}\n" % (rng.choice(["mode a ", "mode b ", "mode c ", "state ", "", " state x "]), v, t) for v, t in (("flag", "set('on')"), ("mark", "set(\"va\")"), ("two", "set('on')"))[:rng.randint(1, 3)])
        body += " %s {{ j | joinmatches(',') }}\n %s {{ z | upper | default('none') }}\n" % (rng.choice(["add", "more"]), rng.choice(["zed", "more z"]))
    if "nested" in f:
        body += "<group name=\"kid*\">\n kid {{ k%s }}\n</group>\n" % (" | macro('mac1')" if "macro" in f else "")
    body += "</group>\n"
    if "dyn" in f:
        body += "<group name=\"num.{{ d }}\">\nnum {{ d }} {{ w }}\n</group>\n"
    if "latedyn" in f:
        # the value of the path may be missing, values seen before are used then
        M.ev("late_paths")
        body += "<group name=\"late.{{ dk }}.x%s\">\nbox {{ bx }}\n key {{ dk }}\n val {{ bv }}\n</group>\n" % rng.choice(["", "*"])
    if "path" in f:
        M.ev("path_characters")
        body += "<group name=\"%s*\">\nroad {{ rd }}\n</group>\n" % rng.choice(["a.b/c", "a/b.c", "a-b/c.d", "a.b"])
    if "outs" in f:
        M.ev("group_outputs")
        body += "<group name=\"go*\"%s>\nside {{ sd }}\n</group>\n<output name=\"o1\"%s/>\n" % (rng.choice([" output=\"o1\"", ""]), rng.choice([" macro=\"mac5\"", " format=\"json\"", " dict_to_list=\"key_name='kn', path='zz'\"", ""]) if f & {"macro", "gmacro", "imacro", "output"} else " format=\"json\"")
    if "lookup" in f:
        body += "<group name=\"l*\">\nlook {{ k | lookup('tbl', add_field='f') }}\n</group>\n"
    if "record" in f:
        M.ev("recorded")
        body += "<group name=\"r*\">\nput {{ p | record(\"last\") }}\n</group>\n<group name=\"q*\">\nget {{ y }}\n{{ was | set(\"last\") }}\n</group>\n"
    if "count" in f:
        M.ev("globals")
        body += "<group name=\"c*\">\nhit {{ h | count(globvar=\"tot\", var=\"loc\") }}\n</group>\n<group name=\"t*\">\nsay {{ s }}\n{{ tot | set(\"tot\") }}\n{{ loc | set(\"loc\") }}\n</group>\n"
    if "extend" in f:
        M.ev("extended")
        path = os.path.join(scratch, "ext.txt" if rng.random() < 0.01 else "ext%d.txt" % index)
        with open(path, "w") as fh:
            fh.write("<group name=\"e*\">\next {{ e | append(\"%s\") }}\n</group>\n" % tag)
        body += "<extend template=\"%s\"/>\n" % path
    if "output" in f:
        body += "<output macro=\"mac5\"/>\n" if "macro" in f or "gmacro" in f or "imacro" in f else "<output macro=\"mac5\"/>\n"
    inp = "<input name=\"in\"%s/>\n" % (" macro=\"mac4\"" if "imacro" in f else "")
    fails = rng.random() < 0.15
    if fails:
        M.ev("failing_macros")
        mac += "<macro>\ndef mac9(data):\n    %s\n    raise RuntimeError(data)\n</macro>\n" % call
        body += "<group name=\"boom*\">\nboom {{ b | macro('mac9') }}\n</group>\n"
    tpl = inp + mac + variables + lookup + body
    kw = {}
    if rng.random() < 0.3:
        kw["vars"] = {"va": "ctor-" + tag, "vc": tag}
    if rng.random() < 0.3:
        M.ev("key_to_int")
        kw["dynamic_path_key_to_int"] = True
    if "path" in f and rng.random() < 0.7:
        tpl = "<template pathchar=\"%s\">\n%s</template>\n" % (rng.choice("/-"), tpl)
    multi = rng.random() < 0.35
    if multi:
        tpl = "<template name=\"ta\">\n%s</template>\n<template name=\"tb\">\n%s</template>\n" % (tpl, "<input name=\"in\"/>\n<group name=\"o*\">\nrec {{ n | macro('mac1') | fun1('tb') }}\n</group>\n")
    funs = {}
    if f & {"fun", "gfun", "getter", "ttpfun"} or multi:
        M.ev("function_clash")
        funs["match"] = ("fun1", "def fun1(data, *args):\n    %s\n    return data + '/%s' + str(args[0]), None\n" % (call, tag))
        funs["group"] = ("fun2", "def fun2(data, *args, **kwargs):\n    %s\n    return dict(data, f2=['%s', args[0]]), None\n" % (call, tag))
        funs["variable"] = ("get1", "def get1(data, name):\n    %s\n    return '%s:%%d' %% len(data)\n" % (call, tag))
        funs["ttp"] = ("fun3", "def fun3(data):\n    %s\n    return data + str(_ttp_['vars'].get('va')) + '|'.join(sorted(_ttp_['lookups'] if 'lookups' in _ttp_ else [])), None\n" % call)
    items = []
    for i in range(rng.randint(1, 3)):
        lines = ["~ %d %s" % (i, tag)]
        if "host" in f and rng.random() < 0.7:
            lines.append("sw-%s%d#show" % (tag, i))
        for _ in range(rng.randint(1, 6)):
            k = rng.choice(["rec", "rec", "num", "look", "put", "get", "hit", "say", "ext", "box", "box", "road", "side"])
            v = "%s%d" % (gen.word(rng, 2, 4), rng.randint(0, 99))
            if k == "rec":
                lines.append("rec " + v)
                if rng.random() < 0.5:
                    lines.append(" opt o" + v)
                if rng.random() < 0.6:
                    lines += rng.sample([" mode a", " mode b", " mode c", " state", "  state x", " add 1", " add 2", " more 3", " more 4", " zed x", " more z y"], rng.randint(1, 6))
                for _ in range(rng.choice([0, 0, 1, 2])):
                    lines.append(" kid " + gen.word(rng))
            elif k == "box":
                lines += ["box " + v] + rng.sample([" key k%d" % rng.randint(1, 3), " val " + v], rng.randint(0, 2))
            elif k == "num":
                lines.append("num %d w%s" % (rng.randint(1, 50), v))
            elif k == "look":
                lines.append("look " + rng.choice(["ka", "kb", "kc"]))
            else:
                lines.append("%s %s" % (k, v))
        if fails and i == (1 if rng.random() < 0.5 else 0):
            lines.append("boom x")
        items.append("\n".join(lines) + "\n")
    quick = rng.random() < 0.12 and not multi
    if quick and not funs:
        M.ev("quick")
        ops.append(("quick", items[0], tpl, {k: v for k, v in kw.items() if k == "vars"}))
        return ops
    ops.append(("new", kw))
    for scope, (n, src) in sorted(funs.items()):
        ops.append(("fun", scope, n, src))
    if rng.random() < 0.15:
        M.ev("failed_parsers")
        ops.append(("bad", rng.choice(["<group name=\"x\">\nrec {{ n }}\n", "<group>\n{{ n | macro( }}\n</group", "<template><extend template=\"/nonexistent/file\"/></template>"])))
    ops.append(("template", tpl))
    if "vars" in f and rng.random() < 0.4:
        ops.append(("vars", {"va": "api-" + tag}))
    if "lookup" in f and rng.random() < 0.4:
        ops.append(("lookup", "tbl", {"ka": "api" + tag, "kc": tag}))
    names = ["ta", "tb"] if multi else ["_root_template_"]
    for i in items:
        ops.append(("input", i, rng.choice(names)))
    for r in range(rng.choice([1, 1, 2])):
        ops.append(("parse",))
        for _ in range(rng.choice([1, 1, 2])):
            fmt = None
            if rng.random() < 0.25:
                M.ev("formatted")
                fmt = rng.choice(["json", "pprint", "yaml"])
            ops.append(("result", rng.choice(["list", "dictionary", "flat_list"]), fmt))
        if rng.random() < 0.3:
            ops.append(("clear",))
        if rng.random() < 0.3:
            ops.append(("input", "~ late %d\nrec late%d\n" % (r, r), rng.choice(names)))
    if rng.random() < 0.4:
        M.ev("dropped_parsers")
        ops.append(("drop",))
    return ops


def run_script(ops):
    """generator: executes one operation at each step, yields what was read back"""
    from ttp import quick_parse, ttp
    p = None
    for op in ops:
        out = None
        try:
            if op[0] == "new":
                p = ttp(**copy.deepcopy(op[1]))
            elif op[0] == "quick":
                out = quick_parse(data=op[1], template=op[2], ttp_kwargs=copy.deepcopy(op[3]))
            elif op[0] == "fun":
                ns = {}
                exec(op[3], ns)
                p.add_function(ns[op[2]], scope="match" if op[1] == "ttp" else op[1], add_ttp=op[1] == "ttp")
            elif op[0] == "bad":
                ttp(data="rec x\n", template=op[1])
            elif op[0] == "template":
                p.add_template(op[1])
            elif op[0] == "vars":
                p.add_vars(dict(op[1]))
            elif op[0] == "lookup":
                p.add_lookup(op[1], text_data=repr(op[2]), load="python")
            elif op[0] == "input":
                p.add_input(op[1], input_name="in", template_name=op[2])
            elif op[0] == "parse":
                p.parse(one=True)
            elif op[0] == "result":
                kw = {"format": op[2]} if op[2] and op[1] != "flat_list" else {}
                out = p.result(structure=op[1], **kw)
            elif op[0] == "clear":
                p.clear_result()
            elif op[0] == "drop":
                p = None
        except (Exception, SystemExit) as e:
            out = "failed: %s: %s" % (type(e).__name__, str(e)[:80])
        yield (op[0], copy.deepcopy(out))


# ------------------------------------------------------------------ alone in a process that never made a parser
class Zygote:
    def __init__(self):
        self.r, w = os.pipe()
        r2, self.w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(self.r)
            os.close(self.w)
            try:
                self.serve(r2, w)
            finally:
                os._exit(0)
        os.close(w)
        os.close(r2)

    @staticmethod
    def send(fd, obj):
        b = pickle.dumps(obj)
        b = struct.pack("!Q", len(b)) + b
        while b:
            b = b[os.write(fd, b):]

    @staticmethod
    def recv(fd):
        def exact(n):
            out = b""
            while len(out) < n:
                c = os.read(fd, n - len(out))
                if not c:
                    raise EOFError
                out += c
            return out
        return pickle.loads(exact(struct.unpack("!Q", exact(8))[0]))

    def serve(self, r, w):
        import signal
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(0)
        while True:
            try:
                ops = self.recv(r)
            except EOFError:
                return
            pid = os.fork()
            if pid == 0:
                signal.alarm(120)
                try:
                    self.send(w, list(run_script(ops)))
                except BaseException as e:  # noqa: B902
                    self.send(w, "harness: %r" % (e,))
                os._exit(0)
            _, st = os.waitpid(pid, 0)
            if st:
                self.send(w, "process ended with %r" % st)

    def run(self, ops):
        self.send(self.w, ops)
        return self.recv(self.r)


_zygote = {}


def zygote():
    z = _zygote.get(os.getpid())
    if z is None:
        z = _zygote[os.getpid()] = Zygote()
    return z


def case_mix(rng, M):
    z = zygote()
    n = rng.choice([2, 2, 3, 3, 4, 6])
    scripts = [make_script(rng, M, i, M.scratch) for i in range(n)]
    if rng.random() < 0.2:
        scripts.append(copy.deepcopy(scripts[0]))
        n += 1
    M.ev("scripts", n)
    solo = []
    for s in scripts:
        solo.append(z.run(s))
        M.ev("solo_processes")
    M.note(scripts=scripts)
    gens = [run_script(s) for s in scripts]
    outs = [[] for _ in scripts]
    running = set()
    live = set(range(n))
    depth = [0]
    last = [None]

    def advance(i):
        running.add(i)
        try:
            outs[i].append(next(gens[i]))
        except StopIteration:
            live.discard(i)
        finally:
            running.discard(i)
        if last[0] is not None and last[0] != i:
            M.ev("alternations")
        last[0] = i

    inner = rng.random()

    def step(*a):
        # called from inside of functions of a parser that is parsing
        if depth[0] >= 2 or rng.random() < inner:
            return
        others = sorted(live - running)
        if not others:
            return
        depth[0] += 1
        try:
            M.ev("inside_calls")
            for _ in range(rng.choice([1, 1, 2, 5])):
                others = sorted(live - running)
                if others:
                    advance(rng.choice(others))
        finally:
            depth[0] -= 1

    HOOK.step = step
    stick = rng.choice([0, 0, 0.5, 0.8])
    cur = None
    try:
        while live:
            M.ev("interleaved_live", len(live) > 1)
            if cur not in live or rng.random() >= stick:
                cur = rng.choice(sorted(live))
            advance(cur)
    finally:
        HOOK.step = lambda *a: None
    order = 0
    for i in range(n):
        M.true(isinstance(solo[i], list), "script executed alone", got=solo[i])
        for k, (a, b) in enumerate(zip(outs[i], solo[i])):
            order += 1
            if b[1] is not None:
                M.ev("results_compared")
            M.eq(a, b, "parser %d, call %d (%s): together with other parsers against alone" % (i, k, b[0]))
        M.eq(len(outs[i]), len(solo[i]), "number of calls made")
    M.case((n, stick, tuple(len(s) for s in scripts)), nontrivial=n > 1 and any(o[0] == "result" for s in solo for o in s), sample=[o[0] for o in scripts[0]], n=n)


KINDS = {"mix": (case_mix, 1100, 40000)}
