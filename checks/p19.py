"""P19 - outputs run in order and deliver exactly once where they are told to."""
import calendar
import contextlib
import copy
import io
import json
import os
import re
import select
import socket
import sys
import time

import gen

RULE = ("templates with 1-5 groups, some attached to one or several outputs, 0-5 outputs with functions (recorders, macro), formatters, conditions and sets of returners (self, terminal, file with plain, formatted and default names, custom and unknown "
        "ones, syslog), one or several inputs and templates, per input and per template results, one or several parses and readings; every call of a recorder and returner, every write to standard output, every file and every datagram received on loopback "
        "is logged, the ordered log and the final results are compared with those of a model that runs outputs one after another over the generated records. Non-trivial: at least two deliveries took place.")
NEED = {"recorded_names": 480, "recorded_earlier": 226, "declared_again": 210, "printed": 600, "coloured": 354, "outputs": 14511, "skipped": 5628, "condition_met": 5986, "not_self": 7232, "terminal": 6757, "file": 6645,
        "custom": 9942, "unknown_returner": 2069, "syslog": 960, "datagrams": 3998, "group_outputs": 11382, "group_runs": 12230, "shared_output": 2514, "several_group_outputs": 3408, "unknown_output": 2738, "per_template": 1486,
        "several_inputs": 2968, "several_templates": 1158, "parsed_again": 1844, "read_again": 6363, "read_returner": 2554, "read_macro": 2537, "name_formatted": 1029, "name_by_input": 441, "default_name": 252, "deep_folder":
        1313, "macro": 4318, "by_text": 3612, "multi": 9, "no_results": 648, "servers": 252, "iterate_off": 184, "empty_skipped": 660}
PROCS = 8
CASE_LIMIT = 60
ASSUME = ["the same name used by two outputs of a template is not decided", "files of outputs have names of their own: results written later under the same name replace earlier ones",
          "colours of the terminal returner need the colorama module, which is not installed", "names that cannot be formatted are not judged"]


class Log:
    def __init__(self):
        self.items = []
        self.keep = []

    def add(self, *x):
        self.items.append(copy.deepcopy(x))


class Out(io.TextIOBase):
    """standard output in order with other deliveries"""

    def __init__(self, log):
        self.log, self.buf = log, ""

    def writable(self):
        return True

    def write(self, s):
        self.buf += s
        while "\x03\n" in self.buf:
            # every printed data ends with the mark
            one, self.buf = self.buf.split("\x03\n", 1)
            self.log.add("terminal", one)
        return len(s)


def printed(x):
    return x if isinstance(x, str) else str(x).replace("\\n", "\n")


VARS = [("v_text", "yes", "yes"), ("v_word", "some-word", "'some-word'"), ("v_int", 7, "7"), ("v_bool", True, "True"), ("v_none", None, "None"), ("v_digits", "12", "'12'"), ("v_list", ["a"], None), ("v_off", False, "False")]
OTHER_TYPE = [("v_int", "7", "'7'"), ("v_digits", 12, "12"), ("v_bool", "True", "'True'"), ("v_none", "None", "'None'"), ("v_off", 0, "0"), ("v_text", ["yes"], "['yes']")]


class Template:
    """a template, model of its outputs"""

    def __init__(self, rng, M, log, root, tno, u, nt=1):
        self.nt = nt
        self.rng, self.M, self.log, self.root = rng, M, log, root
        self.per = rng.random() < 0.25
        self.by_host = rng.random() < 0.4
        self.site = gen.word(rng)
        kws = gen.words(rng, rng.randint(1, 5))
        self.groups = []
        names = ["t%do%d" % (tno, i) for i in range(rng.choice([0, 1, 2, 2, 3, 4, 5]) if rng.random() < 0.97 else rng.randint(11, 13))]
        attached = {}
        self.outs = {}
        order = []
        for i, kw in enumerate(kws):
            outs = []
            if names and rng.random() < 0.45:
                outs = rng.sample(names, rng.randint(1, min(3, len(names))))
                M.ev("shared_output", any(o in attached for o in outs))
                for o in outs:
                    attached[o] = True
                M.ev("several_group_outputs", len(outs) > 1)
                spec = list(outs)
                if rng.random() < 0.25:
                    M.ev("unknown_output")
                    spec.insert(rng.randint(0, len(spec)), "nosuch")
            else:
                spec = ["nosuch"] if rng.random() < 0.1 else []
                M.ev("unknown_output", len(spec))
            M.ev("group_outputs", len(outs))
            self.groups.append({"kw": kw, "outs": outs, "spec": spec})
        self.attached = attached
        self.text = ""
        have = rng.sample(VARS, rng.randint(2, len(VARS)))
        self.vars = {k: v for k, v, _ in have}
        self.late = {}
        # conditions are decided by values at the time of the run
        for k, v, _ in have:
            if k in ("v_text", "v_int", "v_bool") and rng.random() < 0.3:
                self.late[k] = {"v_text": "no", "v_int": 8, "v_bool": False}[k] if rng.random() < 0.6 else v
        tags = []
        for i, n in enumerate(names):
            o = self.output(n, n in attached)
            self.outs[n] = o
            if n not in attached:
                order.append(n)
            tags.append(o["tag"])
        self.order = order
        gtags = []
        for g in self.groups:
            gtags.append("<group name=\"%s*\"%s>\n%s {{ val }} {{ num | to_int }}\n</group>\n" % (g["kw"], " output=\"%s\"" % rng.choice([", ", ","]).join(g["spec"]) if g["spec"] else "", g["kw"]))
        vtag = "<vars>\n%s%ssite = %r\n</vars>\n" % ("".join("%s = %r\n" % kv for kv in self.vars.items()), "hostname = \"gethostname\"\n" if self.by_host else "", self.site)
        body = gtags + tags
        k = rng.random()
        if k < 0.3:
            body = tags + gtags
        elif k < 0.6:
            # any order of tags of different kinds
            body, a, b = [], list(gtags), list(tags)
            while a or b:
                body.append((a if a and (not b or rng.random() < 0.5) else b).pop(0))
        self.text = "<template%s>\n%s%s%s</template>" % (" results=\"per_template\"" if self.per else "", "<macro>\ndef wrap(data):\n    return {'wrapped': data}\n\ndef keep(data):\n    return None\n\ndef own(data):\n    return {'by': '%s', 'got': data}\n</macro>\n" % self.site, vtag, "".join(body))
        # data
        self.texts, self.recs = [], []
        for i in range(rng.choice([1, 1, 2, 3])):
            host = "sw%d-%s" % (i + 1, gen.word(rng))
            lines = ["%s# show thing" % host, "~ %d" % i]
            recs = {}
            todo = []
            for g in self.groups:
                for _ in range(rng.choice([0, 1, 2, 2]) if rng.random() < 0.99 else 60):
                    todo.append(g["kw"])
            rng.shuffle(todo)
            for kw in todo:
                v = u()
                n = rng.randint(0, 999)
                lines.append("%s %s %d" % (kw, v, n))
                recs.setdefault(kw, []).append({"val": v, "num": n})
                if rng.random() < 0.2:
                    lines.append("~ junk")
            self.texts.append("\n".join(lines) + "\n")
            self.recs.append((host, recs))
        M.ev("several_inputs", len(self.texts) > 1)
        M.ev("per_template", self.per)
        self.written = {}
        self.defaults = []

    def output(self, name, grouped):
        rng, M = self.rng, self.M
        M.ev("outputs")
        o = {"name": name, "steps": [("rec", name)]}
        funcs = ["rec('%s')" % name]
        attrs = []
        k = rng.random()
        if k < 0.2:
            M.ev("macro")
            funcs.append("macro('wrap')")
            o["steps"].append(("wrap",))
        elif k < 0.3:
            M.ev("macro")
            funcs.append("macro('keep')")
        elif k < 0.5:
            funcs.append("mark('%s')" % name)
            o["steps"].append(("mark", name))
        if len(funcs) > 1 and rng.random() < 0.3:
            funcs.append("rec('%s again')" % name)
            o["steps"].append(("rec", name + " again"))
        attrs.append(("functions", rng.choice([" | ", "|"]).join(funcs)))
        o["format"] = rng.choice(["raw", "raw", "texted", "texted", None])
        if o["format"]:
            attrs.append(("format", o["format"]))
        rets = rng.choice([None, ["self"], ["self"], ["terminal"], ["file"], ["custom"], ["terminal", "self"], ["file", "self"], ["self", "file", "terminal"], ["custom", "terminal", "file"], ["self", "custom"], ["nosuch"], ["nosuch", "custom"],
                           ["custom", "custom2"]])
        o["returners"] = ["self"] if rets is None else rets
        if rets is not None:
            attrs.append(("returner", rng.choice([",", ", "]).join(rets)))
        M.ev("not_self", "self" not in o["returners"])
        M.ev("unknown_returner", "nosuch" in o["returners"])
        if "file" in o["returners"]:
            sub = rng.choice(["flat", "deep/er/dir", "out"])
            M.ev("deep_folder", "/" in sub)
            o["url"] = os.path.join(self.root, sub)
            attrs.append(("url", o["url"]))
            kind = rng.choice(["plain", "site", "host", "time", "default"] if self.by_host else ["plain", "site", "time", "default"])
            if grouped and kind == "default" or self.nt > 1 and not grouped:
                # outputs run after all templates, values of the last of them are used in names
                kind = "plain"
            o["fname"] = {"plain": "%s.txt" % name, "site": "%s_{site}.txt" % name, "host": "{hostname}_%s.txt" % name, "time": "%s%%%%x.out" % name, "default": None}[kind]
            if o["fname"]:
                attrs.append(("filename", o["fname"]))
                M.ev("name_formatted", "{" in o["fname"])
            else:
                M.ev("default_name")
        if rng.random() < 0.4:
            k, v, lit = rng.choice([x for x in VARS if x[2]] if rng.random() < 0.85 else OTHER_TYPE[:4])
            o["condition"] = (k, v)
            attrs.append(("condition", "%s, %s" % (k, lit)))
        if rng.random() < 0.7 or grouped:
            attrs.append(("name", name))
            o["named"] = True
        head = [a for a in attrs if a[0] == "functions"]
        rng.shuffle(attrs)
        if rng.random() < 0.25:
            # options in the text of the tag
            M.ev("by_text")
            inside = [a for a in attrs if a[0] in ("format", "returner", "url", "filename", "condition") and rng.random() < 0.7]
            text = "".join("%s = %r\n" % a for a in inside)
            attrs = [a for a in attrs if a not in inside]
            o["tag"] = "<output %s load=\"python\">\n%s</output>\n" % (" ".join("%s=%s" % (k, gen.quoteattr(v)) for k, v in attrs), gen.escape(text))
        else:
            o["tag"] = "<%s %s/>\n" % (rng.choice(["output", "out", "o"]), " ".join("%s=%s" % (k, gen.quoteattr(v)) for k, v in attrs))
        assert head
        return o

    # -------------------------------------------------- the model
    def run(self, o, data, log, values, host):
        """what one output does with data"""
        M = self.M
        if "condition" in o:
            k, v = o["condition"]
            if k not in values or values[k] != v or type(values[k]) is not type(v):
                M.ev("skipped")
                return data
            M.ev("condition_met")
        x = data
        for s in o["steps"]:
            if s[0] == "rec":
                log.append(("rec", s[1], copy.deepcopy(x)))
            elif s[0] == "wrap":
                x = {"wrapped": x}
            else:
                x = [s[1], x]
        if o["format"] == "texted":
            x = "T" + repr(x)
        for r in o["returners"]:
            if r == "terminal":
                M.ev("terminal")
                log.append(("terminal", printed(x)))
            elif r in ("custom", "custom2"):
                M.ev("custom")
                log.append((r, o["name"] if o.get("named") else None, copy.deepcopy(x)))
            elif r == "file":
                M.ev("file")
                if o["fname"]:
                    fn = o["fname"].replace("{site}", self.site).replace("{hostname}", host).replace("%%", "%")
                    M.ev("name_by_input", "{hostname}" in o["fname"])
                    self.written[os.path.join(o["url"], fn)] = x if isinstance(x, str) else str(x)
                else:
                    self.defaults.append((o["url"], (o["name"] + "_" if o.get("named") else ""), x if isinstance(x, str) else str(x)))
        return x if "self" in o["returners"] else data

    def parse_phase(self, log, values):
        """results of inputs and outputs of groups"""
        results, joined, extra = [], {}, []
        for host, recs in self.recs:
            glob = {g["kw"]: copy.deepcopy(recs[g["kw"]]) for g in self.groups if not g["outs"] and g["kw"] in recs}
            outs = []
            for g in self.groups:
                if g["outs"] and g["kw"] in recs:
                    self.M.ev("group_runs")
                    data = {g["kw"]: copy.deepcopy(recs[g["kw"]])}
                    for n in g["outs"]:
                        data = self.run(self.outs[n], data, log, values, host)
                    outs.append(data)
            if self.per:
                for k, v in glob.items():
                    joined.setdefault(k, []).extend(v)
                extra += outs
            elif outs:
                results.append(([glob] if glob else []) + outs)
            else:
                self.M.ev("no_results", not glob)
                results.append(glob)
        if self.per:
            return ([joined] if joined else []) + extra if extra else joined
        return results

    def outputs_phase(self, data, log, values):
        for n in self.order:
            data = self.run(self.outs[n], data, log, values, self.recs[-1][0])
        return data


def functions(p, log):
    def rec(data, tag):
        log.add("rec", tag, data)
        return data

    def mark(data, tag):
        return [tag, data]

    def texted(data, **kw):
        return "T" + repr(data)

    def custom(data, **kw):
        log.add("custom", kw.get("name"), data)

    def custom2(data, **kw):
        log.add("custom2", kw.get("name"), data)
        return "whatever"

    p.add_function(rec, scope="output", name="rec")
    p.add_function(mark, scope="output", name="mark")
    p.add_function(texted, scope="formatters", name="texted")
    p.add_function(custom, scope="returners", name="custom")
    p.add_function(custom2, scope="returners", name="custom2")


@contextlib.contextmanager
def printing(log):
    """every print call is one item of the log"""
    import builtins
    real = builtins.print
    old = sys.stdout
    sys.stdout = Out(log)

    def mark(*a, **kw):
        kw.setdefault("end", "\x03\n")
        return real(*a, **kw)
    builtins.print = mark
    try:
        yield
    finally:
        builtins.print = real
        rest, sys.stdout = sys.stdout.buf, old
    if rest:
        log.add("written", rest)


def files_below(root):
    out = {}
    for r, _, fs in os.walk(root):
        for f in fs:
            with open(os.path.join(r, f), encoding="utf-8") as fh:
                out[os.path.join(r, f)] = fh.read()
    return out


def check_files(M, root, ts, tag):
    got = files_below(root)
    want = {}
    for t in ts:
        want.update(t.written)
    left = {k: v for k, v in got.items() if k not in want}
    M.eq({k: got.get(k) for k in want}, want, "files written %s" % tag)
    for t in ts:
        for url, prefix, text in t.defaults:
            hit = [k for k, v in left.items() if os.path.dirname(k) == url and re.fullmatch(re.escape(prefix) + r"output_\d{4}-\d\d-\d\d_\d\d-\d\d-\d\d\.txt", os.path.basename(k)) and v == text]
            for h in hit:
                # named by the time of the run
                at = calendar.timegm(time.strptime(os.path.basename(h)[-23:-4], "%Y-%m-%d_%H-%M-%S"))
                now = calendar.timegm(time.localtime())
                M.true(M.began - 2 <= at <= now + 2, "time in the default name %s" % tag, name=h, seconds_off=now - at)
            M.true(hit, "file of default name %s" % tag, files=list(got), folder=url, prefix=prefix)
            if prefix:
                for h in hit[:1]:
                    left.pop(h)
    names = [(u, p) for t in ts for u, p, _ in t.defaults]
    left = {k: v for k, v in left.items() if not any(os.path.dirname(k) == u and os.path.basename(k).startswith(p + "output_") for u, p in names)}
    M.eq(sorted(left), [], "files nobody asked for %s" % tag)


def case_chain(rng, M):
    from ttp import ttp
    M.began = calendar.timegm(time.localtime())
    log = Log()
    root = os.path.join(M.scratch, "out")
    u = gen.Uniq(rng)
    nt = rng.choice([1, 1, 1, 2])
    ts = [Template(rng, M, log, root, i, u, nt) for i in range(nt)]
    M.ev("several_templates", nt > 1)
    # unnamed outputs with default file names share the name
    seen = set()
    for t in ts:
        for o in t.outs.values():
            if "url" in o and not o["fname"]:
                k = (o["url"], o.get("named") and o["name"])
                if k in seen:
                    return case_chain(rng, M)
                seen.add(k)
    ctor = rng.random() < 0.3 and {"v_ctor": 1} or None
    p = ttp(vars=ctor) if ctor else ttp()
    functions(p, log)
    names = []
    for i, t in enumerate(ts):
        names.append("tpl%d" % i)
        p.add_template(t.text, template_name=names[-1])
    for nm, t in zip(names, ts):
        for x in t.texts:
            p.add_input(x, template_name=nm)
    late = {}
    if rng.random() < 0.4:
        for t in ts:
            late.update(t.late)
        if late:
            p.add_vars(dict(late))
    M.note(templates=[t.text for t in ts], data=[t.texts for t in ts], late=late)
    rounds = rng.choice([1, 1, 2])
    done = 0
    for rnd in range(rounds):
        log.items.clear()
        want = []
        for t in ts:
            t.written.clear()
            t.defaults.clear()
        values = [dict(t.vars, site=t.site, **late) for t in ts]
        phase1 = [t.parse_phase(want, v) for t, v in zip(ts, values)]
        final = [t.outputs_phase(d, want, v) for t, d, v in zip(ts, phase1, values)]
        with printing(log):
            p.parse(one=True)
        M.eq(log.items, want, "deliveries of parse %d" % rnd)
        M.eq(p.result(), final, "results of parse %d" % rnd)
        check_files(M, root, ts, "by parse %d" % rnd)
        done += len(want)
        # reading results delivers nothing
        n = len(log.items)
        before = files_below(root)
        with printing(log):
            M.eq(p.result(structure="list"), final, "results read again")
            p.result(structure="dictionary")
        M.ev("read_again")
        M.eq(len(log.items), n, "deliveries by reading results")
        M.eq(files_below(root), before, "files by reading results")
        if rng.random() < 0.4:
            # macros of the template the results are of
            M.ev("read_macro")
            st = rng.choice(["list", "dictionary", "flat_list"])
            n = len(log.items)
            kw = rng.choice([{"macro": "own"}, {"macro": "own"}, {"macro": "own", "format": "texted"}, {"functions": "macro('own')"}])
            exp = [{"by": t.site, "got": d} for t, d in zip(ts, final)]
            if "format" in kw:
                exp = ["T" + repr(x) for x in exp]
            M.eq(p.result(structure=st, **kw), dict(zip(names, exp)) if st == "dictionary" else exp, "results read with %r, structure %s" % (kw, st))
            M.eq(len(log.items), n, "deliveries by reading results with %r" % kw)
            M.eq(p.result(), final, "stored results")
        if rng.random() < 0.4:
            # asked for a delivery
            M.ev("read_returner")
            log.items.clear()
            st = rng.choice(["list", "dictionary"])
            ret = rng.choice(["custom", "custom, self", "terminal", "terminal, custom"])
            with printing(log):
                got = p.result(returner=ret, format="texted", functions="rec('asked')", name="given", structure=st)
            exp = []
            for d in final:
                exp.append(("rec", "asked", d))
                for r in ret.split(", "):
                    if r != "self":
                        exp.append((r, "T" + repr(d)) if r == "terminal" else (r, "given", "T" + repr(d)))
            M.eq(log.items, exp, "deliveries asked for by result")
            res = ["T" + repr(d) if "self" in ret else d for d in final]
            M.eq(got, res if st == "list" else dict(zip(names, res)), "data returned together with the deliveries")
            M.eq(p.result(), final, "stored results")
        if rnd + 1 < rounds:
            M.ev("parsed_again")
            p.clear_result()
            for r, _, fs in os.walk(root):
                for f in fs:
                    os.unlink(os.path.join(r, f))
            if rng.random() < 0.4:
                t = rng.choice(ts)
                v = u()
                host = "swx-%s" % gen.word(rng)
                text = "%s# show thing\n%s %s 5\n" % (host, t.groups[0]["kw"], v)
                t.texts.append(text)
                t.recs.append((host, {t.groups[0]["kw"]: [{"val": v, "num": 5}]}))
                p.add_input(text, template_name=names[ts.index(t)])
    M.case((nt, rounds, len(want), tuple(len(t.order) for t in ts), tuple(tuple(o["returners"]) for t in ts for o in t.outs.values()), hash(str(final)) & 0xFFFFFF), nontrivial=done > 1, sample=ts[0].text[:300])


# ------------------------------------------------------------------ datagrams
def case_syslog(rng, M):
    from ttp import ttp
    M.ev("syslog")
    ns = rng.choice([1, 1, 2])
    M.ev("servers", ns > 1)
    socks = []
    hosts = ["127.0.0.%d" % (i + 1) for i in range(ns)]
    port = None
    for h in hosts:
        s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 1 << 20)
        for _ in range(200):
            try:
                s.bind((h, port or 0))
                break
            except OSError:
                if port:
                    for x in socks:
                        x.close()
                    s.close()
                    return case_syslog(rng, M)
        port = s.getsockname()[1]
        socks.append(s)
    try:
        kw = gen.words(rng, 2)
        path = rng.choice(["%s" % kw[0], "deep.%s" % kw[0], None])
        grouped = rng.random() < 0.3
        others = rng.random() < 0.5
        name = path or kw[0]
        facility = rng.choice([None, 1, 16, 77])
        iterate = rng.choice([None, None, True, False])
        u = gen.Uniq(rng)
        texts, recs, big = [], [], rng.random() < 0.05
        for i in range(rng.choice([1, 2, 3])):
            lines, rs = ["~ %d" % i], []
            for _ in range(rng.choice([0, 1, 2, 5]) if not big or i else rng.choice([20, 70])):
                v = u() + rng.choice(["", "é", "\"", "日本"])
                lines.append("%s %s" % (kw[0], v))
                rs.append({"val": v})
            if others and rng.random() < 0.5:
                lines.append("%s oth" % kw[1])
            texts.append("\n".join(lines) + "\n")
            recs.append((rs, [{"x": "oth"}] if "%s oth" % kw[1] in lines else []))
        opts = {"returner": rng.choice(["syslog", "syslog, self"]), "port": port}
        if path:
            opts["path"] = path
        if facility is not None:
            opts["facility"] = facility
        if iterate is not None:
            opts["iterate"] = iterate
        opts["interval"] = rng.choice([0, 0.01])
        tags = rng.random() < 0.5
        if tags and ns == 1:
            opts["servers"] = hosts[0]
            out = "<output name=\"send\" %s/>" % " ".join("%s=%s" % (k, gen.quoteattr(str(v))) for k, v in opts.items())
        else:
            opts["servers"] = hosts if ns > 1 or rng.random() < 0.5 else hosts[0]
            out = "<output name=\"send\" load=\"python\">\n%s</output>" % "".join("%s = %r\n" % kv for kv in opts.items())
        tpl = "<group name=\"%s*\"%s>\n%s {{ val }}\n</group>\n%s%s" % (name, " output=\"send\"" if grouped else "", kw[0], "<group name=\"other*\">\n%s {{ x }}\n</group>\n" % kw[1] if others else "", out)
        M.note(template=tpl, data=texts)
        p = ttp(template=tpl)
        for t in texts:
            p.add_input(t)
        times = rng.choice([1, 1, 2]) if not big else 1

        def tree(rs, oth):
            d = {}
            if rs:
                at = d
                parts = name.split(".")
                for x in parts[:-1]:
                    at = at.setdefault(x, {})
                at[parts[-1]] = rs
            if oth:
                d["other"] = oth
            return d

        want = []
        for rs, oth in recs:
            d = tree(rs, [] if grouped else oth)
            if grouped and not rs:
                continue
            if not d:
                M.ev("empty_skipped")
                continue
            if path is None:
                want.append(d)
            elif not rs:
                # the path is not in these results
                M.ev("empty_skipped")
            elif iterate is False:
                want.append(rs)
                M.ev("iterate_off")
            else:
                want += rs
        pri = "<%d>" % (((77 if facility is None else facility) << 3) | 6)
        for k in range(times):
            if k:
                p.clear_result()
                M.ev("parsed_again")
            p.parse(one=True)
            for h, s in zip(hosts, socks):
                got = []
                while select.select([s], [], [], 0)[0]:
                    got.append(s.recv(65536).decode("utf-8"))
                M.ev("datagrams", len(got))
                M.eq([g[:len(pri)] for g in got], [pri] * len(got), "facility of messages", messages=got)
                M.eq([json.loads(g[len(pri):]) for g in got], want, "messages received by %s" % h)
    finally:
        for s in socks:
            s.close()
    M.case(("syslog", ns, path, grouped, iterate, facility, tags, len(want)), nontrivial=len(want) > 1, sample=tpl)


def case_names(rng, M):
    """names of files made of values that inputs record: values of the input go first, values recorded by earlier ones next"""
    from ttp import ttp
    M.ev("recorded_names")
    declared = {}
    for v in ("who", "where"):
        if rng.random() < 0.6:
            declared[v] = "base" + gen.word(rng)
    kw, u, root = gen.words(rng, 3), gen.Uniq(rng), os.path.join(M.scratch, "named")
    texts, want, recorded, results = [], {}, dict(declared), []
    for i in range(rng.randint(2, 4)):
        local, lines = dict(declared), ["~ %d" % i]
        for v, k in (("who", kw[0]), ("where", kw[1])):
            if rng.random() < 0.5 or (not i and v not in declared):
                local[v] = recorded[v] = "%s%d" % (gen.word(rng), i)
                lines.append("%s %s" % (k, local[v]))
        vals = [{"val": u()} for _ in range(rng.choice([0, 1, 2]))]
        lines += ["%s %s" % (kw[2], r["val"]) for r in vals]
        texts.append("\n".join(lines) + "\n")
        if vals:
            M.ev("recorded_earlier", any(v not in local for v in ("who", "where")))
            M.ev("declared_again", any(local[v] != recorded[v] for v in local))
            both = dict(recorded, **local)
            want["%s_%s.txt" % (both["who"], both["where"])] = str({"recs": vals})
            results.append([{"recs": vals}])
        else:
            results.append({})
    body = ["<group name=\"a*\">\n%s {{ w | record(\"who\") | void }}\n</group>\n" % kw[0], "<group name=\"b*\">\n%s {{ w | record(\"where\") | void }}\n</group>\n" % kw[1]]
    tpl = "<vars>\n%s</vars>\n%s<group name=\"recs*\" output=\"tofile\">\n%s {{ val }}\n</group>\n<output name=\"tofile\" returner=\"file\" url=\"%s\" filename=\"{who}_{where}.txt\"/>" % (
        "".join("%s = %r\n" % kv for kv in declared.items()), "".join(body), kw[2], root)
    M.note(template=tpl, data=texts)
    p = ttp(template=tpl)
    for t in texts:
        p.add_input(t)
    p.parse(one=True)
    M.eq(p.result()[0], results, "results")
    have = files_below(root) if os.path.isdir(root) else {}
    M.eq({os.path.basename(k): v for k, v in have.items()}, want, "files written")
    M.case((tuple(sorted(declared)), tuple(texts)), nontrivial=len(want) > 1)


WORDS = {"red": "False,No,Failed,Error,Failure,Fail,false,no,failed,error,failure,fail", "green": "True,Yes,Success,Ok,true,yes,success,ok", "yellow": "Warning,warning"}
CODES = {"red": "\033[0;31;40m", "green": "\033[0;32;40m", "yellow": "\033[0;33;40m"}


def case_print(rng, M):
    """text is printed once as it is; with colours asked for only colour codes are added around the words"""
    import types
    from ttp import ttp
    M.ev("printed")
    u = gen.Uniq(rng, "Q")
    opts, words = {}, {}
    colour = rng.random() < 0.6
    for c in WORDS:
        words[c] = WORDS[c].split(",")
        if colour and rng.random() < 0.4:
            words[c] = [x.upper() + "X" for x in gen.words(rng, rng.randint(1, 3))]
            opts[c] = rng.choice([",", ", "]).join(words[c])
    # words that hold no other one, so that every place is decided
    safe = [(c, w) for c in WORDS for w in words[c] if not any(w != x and (x in w or w in x) for d in WORDS for x in words[d])]
    lines = []
    for i in range(rng.randint(1, 5)):
        lines.append(" ".join(rng.choice([u(), "0%d" % i, rng.choice(safe)[1] if safe else "#", "()"]) for _ in range(rng.randint(1, 4))))
    text = rng.choice(["", "\n", "  ", "\n\n"]) + "\n".join(lines) + rng.choice(["", "\n", " \n\n"])
    kept = text
    if colour:
        M.ev("coloured")
        for c, w in safe:
            kept = kept.replace(w, CODES[c] + w + "\033[0m")
    tpl = "<group name=\"g*\">\nitem {{ x }}\n</group>\n<output format=\"texted2\" returner=\"%s\"%s/>" % (rng.choice(["terminal", "terminal, self"]), " colour=\"\" " + " ".join("%s=%s" % (k, gen.quoteattr(v)) for k, v in opts.items()) if colour else "")
    M.note(template=tpl, text=text)
    p = ttp(data="item %s\n" % u(), template=tpl)
    p.add_function(lambda data, **kw: text, scope="formatters", name="texted2")
    # the module of colours is not installed here, all that is used of it is a call at the start
    fake = types.ModuleType("colorama")
    fake.init = lambda *a, **k: None
    old = sys.modules.get("colorama")
    sys.modules["colorama"] = fake
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            p.parse(one=True)
    finally:
        if old is None:
            del sys.modules["colorama"]
        else:
            sys.modules["colorama"] = old
    got = out.getvalue()
    M.eq(got, kept + "\n", "text printed")
    M.case((tpl, text), nontrivial=True)


def case_syslog_values(rng, M):
    """values that are empty are not sent, the ones after them are"""
    from ttp import ttp
    M.ev("syslog")
    s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
    try:
        s.bind(("127.0.0.1", 0))
        kw, want, texts = gen.word(rng), [], []
        for i in range(rng.randint(2, 5)):
            v = rng.choice([0, 0, rng.randint(1, 99), None])
            texts.append("~ %d\n%s" % (i, "%s %d\n" % (kw, v) if v is not None else ""))
            if v:
                want.append(v)
            else:
                M.ev("empty_skipped")
        tpl = "<group name=\"st\">\n%s {{ v | to_int }}\n</group>\n<output returner=\"syslog\" servers=\"127.0.0.1\" port=\"%d\" path=\"st.v\" interval=\"0\"/>" % (kw, s.getsockname()[1])
        M.note(template=tpl, data=texts)
        p = ttp(template=tpl)
        for t in texts:
            p.add_input(t)
        p.parse(one=True)
        got = []
        while select.select([s], [], [], 0)[0]:
            got.append(s.recv(65536).decode("utf-8"))
        M.ev("datagrams", len(got))
        M.eq([json.loads(g.split(">", 1)[1]) for g in got], want, "values received")
    finally:
        s.close()
    M.case((tpl.split("port")[0], tuple(texts)), nontrivial=len(want) > 1)


# ------------------------------------------------------------------ several processes
def case_multi(rng, M):
    """outputs of groups run by other processes deliver to files once"""
    from ttp import ttp
    M.ev("multi")
    root = os.path.join(M.scratch, "out")
    kw = gen.words(rng, 2)
    u = gen.Uniq(rng)
    n = rng.randint(2, 6)
    texts, want, results = [], {}, []
    form = rng.choice(["json", "raw"])
    keep = rng.random() < 0.5
    for i in range(n):
        host = "sw%d-%s" % (i, gen.word(rng))
        rs = [{"val": u()} for _ in range(rng.choice([0, 1, 3]))]
        oth = [{"x": u()} for _ in range(rng.choice([0, 1, 2]))]
        lines = ["%s %s" % (kw[0], r["val"]) for r in rs] + ["%s %s" % (kw[1], r["x"]) for r in oth]
        rng.shuffle(lines)
        order = [ln.split(" ")[1] for ln in lines]
        rs.sort(key=lambda r: order.index(r["val"]))
        oth.sort(key=lambda r: order.index(r["x"]))
        texts.append("%s# show\n%s\n" % (host, "\n".join(lines)))
        res = {"other": oth} if oth else {}
        if rs:
            want[os.path.join(root, "%s_site.txt" % host)] = {"recs": rs}
            res = ([res] if res else []) + [{"recs": rs}]
        results.append(res)
    tpl = ("<vars>\nhostname = \"gethostname\"\nplace = \"site\"\n</vars>\n<group name=\"recs*\" output=\"tofile\">\n%s {{ val }}\n</group>\n<group name=\"other*\">\n%s {{ x }}\n</group>\n"
           "<output name=\"tofile\" format=\"%s\" returner=\"file\" url=\"%s\" filename=\"{hostname}_{place}.txt\"/>\n%s") % (kw[0], kw[1], form, root, "<output format=\"json\" returner=\"file\" url=\"%s\" filename=\"all.txt\"/>" % root if keep else "")
    M.note(template=tpl, data=texts)
    p = ttp(template=tpl)
    for t in texts:
        p.add_input(t)
    p.parse(multi=True)
    # results of several processes come in any order
    M.eq(sorted(p.result()[0], key=repr), sorted(results, key=repr), "results")
    if keep:
        want[os.path.join(root, "all.txt")] = results
    have = files_below(root)
    M.ev("file", len(have))
    M.eq(sorted(have), sorted(want), "files written")
    for k, v in want.items():
        text = have[k]
        if form == "json" or k.endswith("all.txt"):
            got = json.loads(text)
            if k.endswith("all.txt"):
                got, v = sorted(got, key=repr), sorted(v, key=repr)
            M.eq(got, v, "content of %s" % os.path.basename(k))
        else:
            import ast
            M.eq(ast.literal_eval(text), v, "content of %s" % os.path.basename(k))
    M.case(("multi", n, form, keep, len(want)), nontrivial=len(want) > 1)


KINDS = {"chain": (case_chain, 12000, 400000), "syslog": (case_syslog, 2000, 50000), "multi": (case_multi, 24, 1200),
         "names": (case_names, 1200, 40000), "print": (case_print, 1500, 50000), "syslog_values": (case_syslog_values, 400, 15000)}
