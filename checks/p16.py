"""P16 - multi-process parsing returns the same results as single-process parsing."""
import collections
import copy
import csv
import io
import json
import multiprocessing as mp
import os
import signal
import time
import traceback

import gen
import vk

RULE = ("generated parsers (1-3 templates, separate or nested; macros of every kind incl. several of one name, functions registered through the API, lookups of all loaders, variables, getters, chains, recorded values, group outputs, "
        "dynamic paths, extended templates, input functions) with 2-40 inputs (text, files, folders, structured data) are parsed with one process and with several; per-input results are compared as collections per template, every input leaves a "
        "trace in an append-only file written from inside the parse (who parsed it, how often), the inputs are delayed at random to vary the schedule, processes are counted before and after; faults are injected (exceptions, exits, "
        "results that cannot be sent, killed processes); default mode is judged for data around the size limit. Non-trivial: several processes parsed inputs.")
NEED = {"killed_while_sending": 24, "parses_multi": 378, "parses_one": 305, "inputs": 2848, "processes_seen": 1820, "schedules": 128, "trace_lines": 5843, "outputs_run": 47, "faults": 72, "killed": 35, "unsendable": 11, "exits": 10, "raised": 10,
        "default_one": 36, "default_multi": 32, "refused": 12, "lookups": 170, "macros": 374, "same_name_macros": 165, "functions": 161, "recorded": 164, "group_outputs": 163, "files": 105, "structured": 61, "reparsed": 158,
        "getters": 176, "nested_templates": 38, "children_checked": 464, "big_results": 27, "input_functions": 165, "table_lookup": 166, "ordered": 65, "mode_changed": 17}
CASE_LIMIT = 90
ASSUME = ["values shared between inputs (globals counted or recorded) and per_template results are outside of the guarantee, as documented", "Linux, processes started by fork"]


def canon(x):
    """hashable form that keeps types"""
    if isinstance(x, dict):
        return ("d",) + tuple(sorted(((repr(k), canon(v)) for k, v in x.items())))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(canon(v) for v in x)
    return (type(x).__name__, repr(x))


def bag(results):
    """collection of results of each template"""
    return [collections.Counter(canon(r) for r in t) if isinstance(t, list) else canon(t) for t in results]


def cpu_of_children():
    total = 0
    for c in mp.active_children():
        try:
            with open("/proc/%d/stat" % c.pid) as f:
                s = f.read().rsplit(")", 1)[1].split()
            total += int(s[11]) + int(s[12])
        except OSError:
            pass
    return total


def guarded(M, fn, what):
    """runs the call; one that waits for something that never comes is reported"""
    left = signal.setitimer(signal.ITIMER_REAL, 25)[0]
    t0 = time.time()
    try:
        return fn()
    except vk.CaseTimeout:
        a = cpu_of_children(), sum(os.times()[:2])
        time.sleep(3)
        b = cpu_of_children(), sum(os.times()[:2])
        alive = [c.pid for c in mp.active_children()]
        for c in mp.active_children():
            c.kill()
        if b[0] - a[0] <= 2 and b[1] - a[1] < 0.05:
            M.fail("%s: never returns: neither this nor any other process does anything" % what, alive=len(alive))
        raise
    finally:
        signal.setitimer(signal.ITIMER_REAL, max(5, left - (time.time() - t0)))


def children(M, what):
    """no process may be left behind (a short time for the system to end them is allowed)"""
    M.ev("children_checked")
    end = time.time() + 5
    while mp.active_children() and time.time() < end:
        time.sleep(0.02)
    left = mp.active_children()
    for c in left:
        c.kill()
    M.true(not left, "%s: processes left behind" % what, left=len(left))


def trace_macro(path):
    return ("import os, time\n"
            "def trace(data):\n"
            "    fd = os.open(%r, os.O_WRONLY | os.O_APPEND | os.O_CREAT)\n"
            "    os.write(fd, ('%%d %%s\\n' %% (os.getpid(), data)).encode())\n"
            "    os.close(fd)\n"
            "    time.sleep(float(data.split('x')[1]) / 1000)\n"
            "    return data\n" % path)


def read_trace(path):
    if not os.path.exists(path):
        return []
    with open(path) as f:
        out = [ln.split() for ln in f]
    os.unlink(path)
    return [(int(a), b) for a, b in out]


# ------------------------------------------------------------------ parsers
FUN_MATCH = "def cm1(data, *args, **kwargs):\n    return data + '/' + '-'.join(str(a) for a in args)%s\n"
FUN_GROUP = "def cg1(data, *args, **kwargs):\n    return dict(data, cg=%r)%s\n"
FUN_INPUT = "def ci1(data, *args, **kwargs):\n    return data.replace('rec ', 'rec %s')%s\n"
FUN_VAR = "def cv1(data, name):\n    return 'len%d' % len(data)\n"
FUN_TTP = "def ct1(data, *args):\n    return data + str(_ttp_['vars'].get('va'))%s\n"


def loader(rng, table):
    k = rng.choice(["python", "yaml", "json", "csv", "ini"])
    rows = {k_: v for k_, v in table.items()}
    if k == "python":
        return k, repr(rows)
    if k in ("yaml", "json"):
        return k, json.dumps(rows)
    if k == "csv":
        f = io.StringIO()
        w = csv.writer(f)
        w.writerow(["key", "p", "q"])
        for k_, v in rows.items():
            w.writerow([k_, v["p"], v["q"]])
        return k, f.getvalue().replace("\r", "")
    return k, "\n".join("[%s]\np = %s\nq = %s" % (k_, v["p"], v["q"]) for k_, v in rows.items())


def make_template(rng, M, ti, scratch, trace, kinds):
    """template text, {function name: (scope, source, add_ttp)}, line makers"""
    tag = "t%d%s" % (ti, gen.word(rng, 2, 3))
    f = {x for x in kinds if rng.random() < 0.5}
    funs, out, lines = {}, [], []
    mac = "<macro>\n%s</macro>\n" % trace_macro(trace)
    grp = ["<group name=\"tr*\">\ntrace {{ id | macro(\"trace\") }}\n</group>\n"]
    variables, lookups = [], []
    if "macro" in f:
        M.ev("macros")
        mac += "<macro>\ndef m1(data):\n    return data + '-%s'\ndef m2(data):\n    return data, {'m2': [len(data), '%s']}\ndef m3(data):\n    return 'k' not in data\n</macro>\n" % (tag, tag)
        chain = rng.choice(["n | macro('m1')", "n | macro('m2')", "n | upper | macro('m1') | macro('m2')", "n | macro('m3')"])
        grp.append("<group name=\"ma*\">\nmac {{ %s }}\n opt {{ o | default(\"none\") }}\n</group>\n" % chain)
        lines.append(lambda u: "mac %s\n opt %s" % (gen.word(rng), u()) if rng.random() < .6 else "mac %s" % u())
    if "samename" in f:
        M.ev("same_name_macros")
        n = rng.randint(2, 5)
        order = [rng.choice(["A", "B", "C", "D"]) + str(i) for i in range(n)]
        for o in order:
            mac += "<macro>\ndef same(data):\n    return data + '+%s'\n</macro>\n" % o
        grp.append("<group name=\"sa*\">\nsame {{ n | macro('same') }}\n</group>\n")
        lines.append(lambda u: "same " + u())
    if "gmacro" in f:
        M.ev("macros")
        mac += "<macro>\ndef g1(data):\n    return dict(data, g1='%s')\ndef g2(data):\n    if data['n'].endswith('z'):\n        return False\n    data['g2'] = [1, {'x': None}]\n    return data\n</macro>\n" % tag
        grp.append("<group name=\"gm*\" macro=\"g1, g2\">\ngmac {{ n }}\n</group>\n")
        lines.append(lambda u: "gmac %s%s" % (u(), rng.choice(["", "z"])))
    if "inspect" in f:
        # values of the parser that functions can reach
        mac += ("<macro>\ndef ins(data):\n    return data, {'va': _ttp_['vars'].get('va'), 'gl': sorted(k for k in _ttp_['global_vars'] if k.startswith('v')), 'tpl': _ttp_['template_obj'].name, "
                "'lk': sorted(_ttp_['parser_object'].lookups), 'in': _ttp_['parser_object'].DATANAME.split('/')[-1]}\n</macro>\n")
        grp.append("<group name=\"in*\">\nins {{ n | macro('ins') }}\n</group>\n")
        lines.append(lambda u: "ins " + u())
    variables.append("va = \"va-%s\"" % tag)
    variables.append("vb = [\"%s\", \"b\"]" % tag)
    vname = rng.choice(["", " name=\"vars\"", " name=\"rep.vars*\""])
    if "getters" in f:
        M.ev("getters")
        variables.append("host = \"gethostname\"")
        lines.append(lambda u: "sw-%s#show" % u())
        if "functions" in f:
            variables.append("ln = \"cv1\"")
            funs["cv1"] = ("variable", FUN_VAR, False)
        grp.append("<group name=\"gh*\" set=\"va\">\ngh {{ n }}\n{{ h | set(\"host\") }}\n</group>\n")
        lines.append(lambda u: "gh " + u())
    if "functions" in f:
        M.ev("functions")
        funs["cm1"] = ("match", FUN_MATCH % rng.choice([", None", ", True", ", {'cm': 1}"]), False)
        funs["cg1"] = ("group", FUN_GROUP % ("any", ", None"), False)
        funs["ct1"] = ("match", FUN_TTP % ", None", True)
        grp.append("<group name=\"fu*\" cg1=\"'%s'\">\nfun {{ n | cm1('%s', 'x') | ct1 }}\n</group>\n" % (tag, tag))
        lines.append(lambda u: "fun " + u())
    if "chain" in f:
        variables.append("ch = \"upper | append('%s')\"" % tag)
        variables.append("pat = \"%s\"" % rng.choice(["\\\\S+", "[a-z0-9]+", "[a-e].*?"]))
        grp.append("<group name=\"ch*\">\nchn {{ n | re(\"pat\") | chain('ch') }}\n</group>\n")
        lines.append(lambda u: "chn " + rng.choice(["a", "b", "k", "x"]) + u())
    keys = ["k%s" % gen.word(rng, 2, 3) for _ in range(4)]
    if "lookup" in f:
        M.ev("lookups")
        table = {k: {"p": "P%s%d" % (tag, i), "q": "q%d" % i} for i, k in enumerate(keys[:3])}
        ld, text = loader(rng, table)
        key = " key=\"key\"" if ld == "csv" else ""
        lookups.append("<lookup name=\"tbl\" load=\"%s\"%s>\n%s\n</lookup>\n" % (ld, key, gen.escape(text)))
        grp.append("<group name=\"lo*\">\nlook {{ n | lookup('tbl', add_field='f') }}\n</group>\n")
        if ld != "csv":
            lookups.append("<lookup name=\"rv\" load=\"python\">\n%r\n</lookup>\n" % {"ab": "R1" + tag, "ak": "R2"})
            grp.append("<group name=\"rl*\">\nrlook {{ n | rlookup('rv', add_field='f') }}\n</group>\n")
            lines.append(lambda u: "rlook " + rng.choice(["ab", "ak", "zz"]) + u())
        lines.append(lambda u: "look " + rng.choice(keys))
    if "grplookup" in f:
        M.ev("table_lookup")
        grp.append("<group name=\"src**.{{ n }}**\">\nsrc {{ n }} {{ v }}\n</group>\n"
                   "<group name=\"use*\" lookup=\"'n', group='src', add_field='f'\">\nuse {{ n }}\n</group>\n")
        lines.append(lambda u: "src %s %s" % (rng.choice(keys), u()))
        lines.append(lambda u: "use " + rng.choice(keys))
    if "record" in f:
        M.ev("recorded")
        grp.append("<group name=\"pu*\">\nput {{ p | record(\"last\") | count(var=\"puts\") }}\n</group>\n<group name=\"ge*\">\nget {{ y }}\n{{ was | set(\"last\") }}\n{{ puts | set(\"puts\") }}\n</group>\n")
        lines.append(lambda u: "put " + u())
        lines.append(lambda u: "get " + u())
    if "dyn" in f:
        grp.append("<group name=\"num.{{ d }}.x*\">\nnum {{ d }} {{ w | to_int }}\n</group>\n")
        lines.append(lambda u: "num %d %d" % (rng.randint(1, 9), rng.randint(0, 99)))
    if "nested" in f:
        grp.append("<group name=\"pa*\">\npar {{ n }}\n<group name=\"kid*\"%s>\n kid {{ k | _start_ }} {{ rest | ORPHRASE }}\n val {{ v | to_list | joinmatches }}\n</group>\n</group>\n" % rng.choice(["", " contains=\"v\""]))
        lines.append(lambda u: "par %s\n kid %s some words\n val %s\n val %s" % (u(), u(), u(), u()))
    if "fn" in f:
        grp.append("<group name=\"fn*\" functions=\"contains('a') | sformat('{a}/{b}', 'ab') | del('b')\">\nfn {{ a | split(',') | item(0) }} {{ b | default('nob') }}\n</group>\n")
        lines.append(lambda u: "fn %s,%s %s" % (u(), u(), u()))
    if "gout" in f:
        M.ev("group_outputs")
        mac += "<macro>\ndef go(data):\n    return {'out': data, 'by': '%s'}\n</macro>\n" % tag
        grp.append("<group name=\"go\" output=\"gout\">\ngout {{ n }}\n</group>\n<output name=\"gout\" macro=\"go\"/>\n")
        lines.append(lambda u: "gout " + u())
    if "extend" in f:
        path = os.path.join(scratch, "ext%d.txt" % ti)
        with open(path, "w") as fh:
            fh.write("<group name=\"ex*\">\next {{ e | append(\"%s\") }}\n</group>\n" % tag)
        grp.append("<extend template=\"%s\"/>\n" % path)
        lines.append(lambda u: "ext " + u())
    attrs = ""
    if "input" in f:
        M.ev("input_functions")
        mac += "<macro>\ndef im(data):\n    return data.replace('rec ', 'rec %s') if isinstance(data, str) else '\\n' + '\\n'.join(data['lines']) + '\\n\\n'\n</macro>\n" % tag
        attrs = " macro=\"im\""
        if "functions" in f and rng.random() < 0.5:
            funs["ci1"] = ("input", FUN_INPUT % ("c", ", None"), False)
            attrs = " functions=\"macro('im') | ci1\""
    grp.append("<group name=\"re*\">\nrec {{ n }}\n</group>\n")
    lines.append(lambda u: "rec " + u())
    first, rest = grp[0], grp[1:]
    rng.shuffle(rest)
    text = "<vars%s>\n%s\n</vars>\n" % (vname, "\n".join(variables))
    head = [mac, text] + lookups
    rng.shuffle(head)
    return {"tag": tag, "text": "".join(head) + first + "".join(rest), "attrs": attrs, "funs": funs, "lines": lines, "f": f}


KINDS_ALL = ["macro", "samename", "gmacro", "inspect", "getters", "functions", "chain", "lookup", "grplookup", "record", "dyn", "nested", "fn", "gout", "extend", "input"]


def make(rng, M, trace, kinds=KINDS_ALL, extra="", nin=None, extra_line=None, delay=None):
    """a plan: everything needed to build the parser again and again"""
    nt = rng.choice([1, 1, 1, 2, 3])
    tpls = [make_template(rng, M, i, M.scratch, trace, kinds) for i in range(nt)]
    funs = {}
    for t in tpls:
        funs.update(t["funs"])
    u = gen.Uniq(rng)
    delay = delay if delay is not None else rng.choice([0, 0, 0, 3, 10])
    plan = {"tpls": [], "funs": funs, "api": [], "kw": {}, "ids": []}
    if rng.random() < 0.4:
        plan["kw"]["vars"] = {"va": "ctor", "vz": ["z"]}
    if rng.random() < 0.3:
        plan["kw"]["dynamic_path_key_to_int"] = True
    n = nin or rng.choice([1, 2, 3, 5, 8, 12, 20, 30])
    serial = 0
    nested = nt > 1 and rng.random() < 0.4
    body = ""
    for i, t in enumerate(tpls):
        name = "tp%d" % i
        tags = ""
        count = n if nt == 1 else rng.randint(1, max(1, n))
        struct = "input" in t["f"] and rng.random() < 0.4
        files = not struct and rng.random() < 0.3
        items = []
        for k in range(count):
            serial += 1
            ident = "i%dx%d" % (serial, rng.randint(0, delay) if delay else 0)
            plan["ids"].append(ident)
            ls = ["trace " + ident]
            for _ in range(rng.choice([0, 1, 3, 6, 12])):
                ls.append(rng.choice(t["lines"])(u))
            if "record" in t["f"]:
                ls.insert(1, "put first" + ident)
            if "grplookup" in t["f"]:
                # values of other inputs are used when this one has none
                ls.insert(1, "src kzz x" + ident)
            if rng.random() < 0.02 * (nt == 1):
                M.ev("big_results")
                ls += ["rec %s%d" % ("y" * 300, j) for j in range(1500)]
            items.append(ls)
        if extra_line:
            items[rng.randrange(len(items))].append(extra_line)
        M.ev("inputs", len(items))
        inname = rng.choice(["Default_Input", "ina"]) if not t["attrs"] else "ina"
        if struct:
            M.ev("structured")
            for ls in items:
                plan["api"].append((name, inname, {"lines": ls}))
            tags = "<input name=\"ina\"%s/>\n" % t["attrs"]
        elif files:
            M.ev("files")
            d = os.path.join(M.scratch, "data_" + name)
            os.makedirs(d)
            for j, ls in enumerate(items):
                with open(os.path.join(d, "f%d.txt" % j), "w") as fh:
                    fh.write("\n".join(ls) + "\n")
            if rng.random() < 0.5:
                plan["api"].append((name, inname, d))
                tags = "<input name=\"ina\"%s/>\n" % t["attrs"] if t["attrs"] else ""
            else:
                tags = "<input name=\"ina\"%s load=\"text\">\nurl = \"%s/\"\n</input>\n" % (t["attrs"], d)
                tags = "<input name=\"ina\"%s load=\"python\">\nurl = %r\n</input>\n" % (t["attrs"], d)
        else:
            tags = "<input name=\"ina\"%s/>\n" % t["attrs"] if t["attrs"] else ""
            for ls in items:
                plan["api"].append((name, inname if rng.random() < 0.8 or t["attrs"] else "inb", "\n".join(ls) + "\n"))
        text = tags + t["text"] + extra
        if nested:
            body += "<template name=\"%s\">\n%s</template>\n" % (name, text)
        else:
            plan["tpls"].append((name, text))
    if nested:
        M.ev("nested_templates")
        plan["tpls"].append(("all", body))
    return plan


def build(plan):
    from ttp import ttp
    p = ttp(**copy.deepcopy(plan["kw"]))
    for n, (scope, src, add) in sorted(plan["funs"].items()):
        ns = {}
        exec(src, ns)
        p.add_function(ns[n], scope=scope, add_ttp=add)
    for name, text in plan["tpls"]:
        p.add_template(text, template_name=name)
    for tname, inp, data in plan["api"]:
        p.add_input(copy.deepcopy(data), input_name=inp, template_name=tname)
    return p


def outcome(M, p, multi, what):
    M.ev("parses_multi" if multi else "parses_one")
    try:
        guarded(M, lambda: p.parse(one=not multi, multi=multi), what)
    except (Exception, SystemExit) as e:
        if isinstance(e, (vk.Violation, vk.CaseTimeout)):
            raise
        M.note(traceback="".join(traceback.format_exception(e)[-4:]))
        return e
    return None


def check_trace(M, log, ids, multi, what):
    M.ev("trace_lines", len(log))
    M.eq(sorted(collections.Counter(x for _, x in log).items()), sorted(collections.Counter(ids).items()), "%s: how often each input was parsed" % what)
    pids = {p for p, _ in log}
    if multi:
        M.true(os.getpid() not in pids, "%s: inputs parsed by the calling process" % what)
        M.ev("processes_seen", len(pids))
    else:
        M.eq(pids, {os.getpid()}, "%s: processes that parsed" % what)
    return pids


# ------------------------------------------------------------------ cases
def case_equal(rng, M):
    trace = os.path.join(M.scratch, "trace.txt")
    out = ""
    if rng.random() < 0.3:
        out = "<macro>\ndef so(data):\n    return {'n': len(data), 'all': sorted((repr(x) for x in data), key=str)}\n</macro>\n<output macro=\"so\"/>\n"
        out = "<macro>\ndef so(data):\n    data.append({'n': len(data), 'runs': sum(1 for d in data if 'runs' in d)})\n    return data\n</macro>\n<output macro=\"so\"/>\n"
        M.ev("outputs_run")
    plan = make(rng, M, trace, extra=out)
    M.note(plan=plan)
    modes = rng.choice([[False, True], [False, True], [True, False]])
    rounds = 2 if rng.random() < 0.15 else 1
    res = {}
    pids = set()
    for multi in modes:
        what = "parse(%s=True)" % ("multi" if multi else "one")
        p = build(plan)
        for k in range(rounds):
            if k:
                M.ev("reparsed")
            e = outcome(M, p, multi, what)
            if e is not None:
                M.fail("%s raised" % what, error=repr(e))
            log = read_trace(trace)
            pids |= check_trace(M, log, plan["ids"], multi, what)
            if multi:
                M.ev("schedules", len({a for a, _ in log}) > 1 and [b for _, b in log] != plan["ids"])
                children(M, what)
        res[multi] = p.result()
    M.eq(len(res[True]), len(res[False]), "number of templates with results")
    for i, (a, b) in enumerate(zip(res[True], res[False])):
        M.eq(len(a), len(b), "template %d: number of results" % i)
        ca, cb = bag([a])[0], bag([b])[0]
        if ca != cb:
            left = list((cb - ca).elements())[:1]
            extra = list((ca - cb).elements())[:1]
            M.fail("template %d: results of several processes differ from those of one" % i, missing=left, instead=extra)
        M.ev("comparisons", len(a))
        if a != b and [bag([[x]]) for x in a] != [bag([[x]]) for x in b]:
            M.fail("template %d: results of several processes are not in the order of inputs" % i, got=[str(x)[:80] for x in a], expected=[str(x)[:80] for x in b])
        M.ev("ordered", len(a) > 10)
    M.case((sorted(set().union(*[{"x"}])), len(plan["ids"]), len(plan["api"]), len(pids), out != "", hash(str(plan["tpls"])) & 0xFFFFFF), nontrivial=len(pids) > 2, sample=plan["tpls"][0][1][:800])


def case_mixed(rng, M):
    """one object: several parses in different modes, results accumulate"""
    trace = os.path.join(M.scratch, "trace.txt")
    plan = make(rng, M, trace)
    ref = build(plan)
    e = outcome(M, ref, False, "reference")
    M.true(e is None, "parse(one=True) raised", error=repr(e))
    read_trace(trace)
    want = bag(ref.result())
    M.note(plan=plan)
    p = build(plan)
    seq = [rng.random() < 0.6 for _ in range(rng.randint(2, 4))]
    runs = 0
    for k, multi in enumerate(seq):
        what = "parse %d of one object (%s)" % (k, "multi" if multi else "one")
        e = outcome(M, p, multi, what)
        M.true(e is None, "%s raised" % what, error=repr(e))
        M.ev("reparsed", k > 0)
        check_trace(M, read_trace(trace), plan["ids"], multi, what)
        runs += 1
        got = bag(p.result())
        M.eq(len(got), len(want), "%s: templates" % what)
        for g, w in zip(got, want):
            w = collections.Counter({a: b * runs for a, b in w.items()})
            M.true(g == w, "%s: accumulated results" % what, got=list((g - w).elements())[:1], expected=list((w - g).elements())[:1], runs=runs)
        if rng.random() < 0.3:
            p.clear_result()
            runs = 0
        if multi:
            children(M, what)
    M.case((tuple(seq), len(plan["ids"]), hash(str(plan["tpls"])) & 0xFFFFFF), nontrivial=any(seq), sample=seq)


FAULTS = {
    "raised": ["raise ValueError('bad')", "raise KeyError('x')", "{}['x']", "raise Exception()"],
    "exits": ["raise SystemExit()", "raise SystemExit(2)", "import sys; sys.exit(0)"],
    "unsendable": ["return lambda: 1", "return open('/dev/null')", "return {'x': [(i for i in 'ab')]}", "import threading; return threading.Lock()"],
    "killed": ["import signal; os.kill(os.getpid(), signal.SIGKILL)", "os._exit(0)", "os._exit(1)", "import signal; os.kill(os.getpid(), signal.SIGTERM)"],
}


def case_fault(rng, M):
    trace = os.path.join(M.scratch, "trace.txt")
    kind = rng.choice(sorted(FAULTS))
    M.ev("faults")
    M.ev(kind)
    body = rng.choice(FAULTS[kind])
    if rng.random() < 0.3:
        body = "time.sleep(0.05); " + body
    when = rng.choice(["match", "group"])
    mac = "<macro>\nimport os, time\ndef fault(data):\n    %s\n    return data\n</macro>\n" % body
    if when == "match":
        mac += "<group name=\"fault*\">\nfault {{ x | macro('fault') }}\n</group>\n"
    else:
        mac += "<group name=\"fault\" macro=\"fault2\">\nfault {{ x }}\n</group>\n<macro>\nimport os, time\ndef fault2(data):\n    r = fault3(data)\n    return r if isinstance(r, dict) else {'x': r}\ndef fault3(data):\n    %s\n    return data\n</macro>\n" % body
    plan = make(rng, M, trace, kinds=["macro", "nested", "fn"], extra=mac, extra_line="fault now", nin=rng.choice([1, 2, 5, 12, 25]))
    M.note(plan=plan, kind=kind, body=body)
    e1 = None
    if kind != "killed":
        p = build(plan)
        e1 = outcome(M, p, False, "parse(one=True)")
        read_trace(trace)
    p2 = build(plan)
    e2 = outcome(M, p2, True, "parse(multi=True)")
    log = read_trace(trace)
    children(M, "parse(multi=True) with an input that fails (%s)" % kind)
    if kind in ("killed", "unsendable"):
        M.true(e2 is not None, "parse(multi=True) that lost the result of an input (%s: %s) reports no error" % (kind, body))
    else:
        M.eq(e2 is None, e1 is None, "fails (%s: %s) with several processes as with one" % (kind, body), one=repr(e1), multi=repr(e2))
        if e1 is None:
            M.true(bag(p2.result()) == bag(p.result()), "results with a failing macro: several processes against one", got=p2.result(), expected=p.result())
    M.true(all(a != os.getpid() for a, _ in log), "inputs parsed by the calling process")
    # the object and the machinery can still be used
    ok = build({"tpls": [("tp0", "<group name=\"a*\">\nrec {{ n }}\n</group>")], "funs": {}, "kw": {}, "api": [("tp0", "Default_Input", "rec %d\n" % k) for k in range(3)]})
    e = outcome(M, ok, True, "the next parse")
    M.true(e is None, "parse after a failed one raised", error=repr(e))
    M.eq(sorted(x["a"][0]["n"] for x in ok.result()[0]), ["0", "1", "2"], "parse after a failed one")
    children(M, "the next parse")
    M.case((kind, body, when, len(plan["ids"]), len(log)), sample=(kind, body))


def case_abrupt(rng, M):
    """a process goes at once after an item whose result takes time to send"""
    from ttp import ttp
    code = rng.choice([0, 0, 0, 1, 3])
    how = rng.choice(["os._exit(%d)" % code] * 4 + ["os.kill(os.getpid(), 15)", "os.kill(os.getpid(), 9)"])
    p = ttp(template="<macro>\nimport os\ndef fault(data):\n    %s\n</macro>\n<group name=\"fault*\">\nfault {{ x | macro('fault') }}\n</group>\n<group name=\"r*\">\nrec {{ n }}\n</group>\n" % how)
    n = rng.choice([9, 12, 16, 25, 40])
    bad = set(rng.sample(range(2, n), rng.choice([1, 1, 2, 7])))
    for k in range(n):
        if k in bad:
            p.add_input("fault %d\n" % k)
        else:
            p.add_input("rec %s%d\n" % ("y" * rng.choice([3, 30000, 200000, 600000]), k))
    M.note(how=how, items=n, bad=sorted(bad))
    M.ev("faults")
    M.ev("killed")
    M.ev("killed_while_sending")
    e = outcome(M, p, True, "parse(multi=True)")
    children(M, "parse(multi=True) with processes that end (%s)" % how)
    M.true(e is not None, "parse(multi=True) that lost the result of an input (%s) reports no error" % how)
    M.case((how, n, tuple(sorted(bad))), sample=(how, n))


def case_default(rng, M):
    """which mode is used by default"""
    from ttp import ttp
    trace = os.path.join(M.scratch, "trace.txt")
    size = rng.choice(["small", "small", "under", "over", "over"])
    total = {"small": rng.randint(10, 200000), "under": rng.randint(3000000, 5000000), "over": rng.choice([5400000, 6000000, 8000000])}[size]
    items = rng.choice([1, 2, 2, 3, 6, 9, 14])
    nt = rng.choice([1, 1, 2])
    files = rng.random() < 0.5
    share = rng.choice(["even", "one"])
    big = size == "over"
    p = ttp()
    ids = []
    for t in range(nt):
        p.add_template("<macro>\n%s</macro>\n<group name=\"tr*\">\ntrace {{ id | macro(\"trace\") }}\n</group>\n" % trace_macro(trace), template_name="t%d" % t)
    per = total // items if share == "even" else 100
    for k in range(items):
        n = per if share == "even" or k else total - per * (items - 1)
        ident = "i%dx0" % k
        ids.append(ident)
        text = "trace %s\n%s" % (ident, ("~%d %s\n" % (k, "u" * rng.choice([60, 500, 5000]))))
        ln = text.split("\n")[1] + "\n"
        text += ln * max(0, (n - len(text)) // len(ln))
        tname = "t%d" % (k % nt)
        if files:
            path = M.write("d%d.txt" % k, text)
            p.add_input(path, template_name=tname)
        else:
            p.add_input(text, template_name=tname)
    M.note(size=size, total=total, items=items, templates=nt, files=files, share=share)
    what = "parse() of %d item(s), %d bytes" % (items, total)
    guarded(M, lambda: p.parse(**rng.choice([{}, {}, {"one": False}, {"multi": False}, {"one": False, "multi": False}])), what)
    log = read_trace(trace)
    multi = big and items >= 2
    M.ev("default_multi" if multi else "default_one")
    check_trace(M, log, ids, multi, what)
    children(M, what)
    got = sorted(x["tr"][0]["id"] for t in p.result() for x in t)
    M.eq(got, sorted(ids), "%s: results" % what)
    M.case((size, total, items, nt, files, share), nontrivial=True, sample=(size, total, items))


def case_growing(rng, M):
    """the default mode follows the inputs the object has at the time"""
    from ttp import ttp
    trace = os.path.join(M.scratch, "trace.txt")
    p = ttp()
    p.add_template("<macro>\n%s</macro>\n<group name=\"tr*\">\ntrace {{ id | macro(\"trace\") }}\n</group>\n" % trace_macro(trace), template_name="t")
    ids, sizes, log = [], [], []
    for step in range(rng.randint(2, 4)):
        what = "step %d" % step
        act = rng.choice(["small", "big", "big", "clear"])
        if act == "clear" and step:
            p.clear_input()
            ids, sizes = [], []
            act = rng.choice(["small", "small", "big"])
        for k in range(1 if act == "small" else rng.choice([1, 2, 2])):
            ident = "s%dk%dx0" % (step, k)
            n = rng.randint(100, 30000) if act != "big" else rng.choice([2700000, 5400000])
            line = "~%s %s\n" % (ident, "u" * 3000)
            text = "trace %s\n%s" % (ident, line * (n // len(line) + 1))
            p.add_input(text, template_name="t")
            ids.append(ident)
            sizes.append(len(text))
        total = sum(sizes)
        if 5000000 < total < 5400000:
            break
        what = "parse() of %d item(s), %d bytes at step %d" % (len(ids), total, step)
        M.note(step=step, act=act, sizes=sizes, log=log)
        guarded(M, p.parse, what)
        multi = total > 5242880 and len(ids) > 1
        M.ev("default_multi" if multi else "default_one")
        M.ev("reparsed", step > 0)
        check_trace(M, read_trace(trace), ids, multi, what)
        children(M, what)
        log.append((act, total, len(ids), multi))
        if log[0][3] != multi:
            M.ev("mode_changed")
        p.clear_result()
    M.case(tuple(log), nontrivial=len(log) > 1, sample=log)


def case_refuse(rng, M):
    trace = os.path.join(M.scratch, "trace.txt")
    plan = make(rng, M, trace, nin=rng.choice([1, 3]))
    p = build(plan)
    before = p.result()
    M.ev("refused")
    try:
        guarded(M, lambda: p.parse(one=True, multi=True), "parse(one=True, multi=True)")
    except (Exception, SystemExit) as e:
        if isinstance(e, vk.Violation):
            raise
        M.ev("comparisons")
    else:
        M.fail("parse(one=True, multi=True) accepted", results=p.result())
    M.eq(read_trace(trace), [], "inputs parsed by refused parse(one=True, multi=True)")
    M.eq(p.result(), before, "results after the refused parse")
    children(M, "refused parse")
    M.case(("refuse", len(plan["ids"]), hash(str(plan["tpls"])) & 0xFFFFFF))


KINDS = {"equal": (case_equal, 420, 18000), "mixed": (case_mixed, 90, 4000), "fault": (case_fault, 120, 4000), "abrupt": (case_abrupt, 60, 1500), "default": (case_default, 60, 2000), "refuse": (case_refuse, 30, 600), "growing": (case_growing, 40, 1000)}
