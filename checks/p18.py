"""P18 - formatters render results faithfully and leave them unchanged."""
import ast
import copy
import csv
import html
import io
import json
import os
import re

import gen

RULE = ("results of many shapes (anonymous, listed, nested, keyed, per input and per template, missing keys, numbers, None, structures, quotes, separators, control and non-ASCII characters) are produced by parsing generated data, rendered by "
        "every formatter with generated options - requested by an output tag or when reading results, in all structures - and the rendered text, table or workbook is read back by independent readers and compared with the generated records; "
        "stored results are compared before and after every rendering. Non-trivial: at least one record was rendered.")
NEED = {"literal_cells": 12150, "excel_replaced": 116, "json": 3184, "yaml": 3198, "pprint": 3167, "raw": 3004, "jinja2": 400, "table": 1891, "csv": 1886, "tabulate": 1098, "excel": 705, "n2g": 432, "by_tag": 5268, "by_result":
        13303, "rows": 43415, "missing_cells": 57433, "keyed": 1330, "headers_given": 2343, "not_strict": 706, "strict_error": 145, "odd_cells": 34112, "per_template": 2284, "anonymous": 988, "single_record": 3283,
        "several_inputs": 4659, "excel_update": 192, "excel_tabs": 200, "unchanged": 15868, "int_keys": 211, "structures": 10099, "nested_path": 1922, "structured_cells": 12527, "mixed_keys": 101, "csv_options": 775,
        "tabulate_options": 786}
CASE_LIMIT = 60
ASSUME = ["numbers in tabulate output are judged with disable_numparse, the library renders numeric text as numbers otherwise", "csv without a quote character cannot carry separators and is judged for values without them",
          "JSON has only text keys: integer keys come back as text"]

ODD = ["a,b", "say \"hi\"", "\"", "''", "x;y", "a|b", "=1+2", "naïve", "日本", "tab\tin", "{curly}", "[1]", "%s", "a  b", "\\n", "null", "yes", "0012", "1.10", "~", "- x", "key: v", "#c", "&amp;", "<b>", "a'b\"c", "!tag", "*x", "@", "`", "\u00a0z", "0x1F", "1e5", "on", "y\u2028z"]


def value(rng):
    if rng.random() < 0.35:
        return rng.choice(ODD)
    return gen.word(rng) + rng.choice(["", "", " " + gen.word(rng), "-1", ".2"])


def anything(rng, depth=0):
    k = rng.choice(["s", "s", "i", "n", "b", "f", "l", "d"] if depth < 3 else ["s", "i", "n"])
    if k == "s":
        return value(rng) if rng.random() < 0.9 else rng.choice(["", " lead", "trail ", "two\nlines", "cr\rx", "bell\x07", "\x85nel", "\ufeffbom", "emoji \U0001f600"])
    if k == "i":
        return rng.choice([0, 1, -5, 10 ** 20, 42])
    if k == "n":
        return None
    if k == "b":
        return rng.random() < 0.5
    if k == "f":
        return rng.choice([0.5, -1.25, 1e100, 3.0])
    if k == "l":
        return [anything(rng, depth + 1) for _ in range(rng.randint(0, 3))]
    return {rng.choice([gen.word(rng), "a b", "k:1", "yes", "1", "naïve", "x.y"]): anything(rng, depth + 1) for _ in range(rng.randint(0, 3))}


def texted(x):
    """JSON carries text keys only"""
    if isinstance(x, dict):
        return {str(k): texted(v) for k, v in x.items()}
    if isinstance(x, list):
        return [texted(v) for v in x]
    return x


def read(fmt, text):
    if fmt == "json":
        return json.loads(text)
    if fmt == "yaml":
        import yaml
        return yaml.safe_load(text)
    if fmt == "pprint":
        return ast.literal_eval(text)
    return text


# ------------------------------------------------------------------ whole results
def case_tree(rng, M):
    from ttp import ttp
    shape = rng.choice(["list", "list", "dict", "anon", "nested", "dyn", "mixed"])
    per = rng.random() < 0.25
    reported = rng.random() < 0.4
    ints = rng.random() < 0.3
    nin = rng.choice([1, 1, 2, 3])
    mac = "<macro>\nimport ast\ndef lit(data):\n    return data, {'w': ast.literal_eval(data)}\n</macro>\n"
    body = "rec {{ n | re(\".+\") | macro('lit') }}\n"
    if shape == "anon":
        grp = "<group>\n%s</group>\n" % body
    elif shape == "dict":
        grp = "<group name=\"a.b\">\n%s</group>\n" % body
    elif shape == "nested":
        grp = "<group name=\"p*\">\nstart {{ s }}\n<group name=\"q.r*\">\n%s</group>\n</group>\n" % body
    elif shape in ("dyn", "mixed"):
        grp = "<group name=\"d.{{ id }}\">\nid {{ id }}\n%s</group>\n" % body
    else:
        grp = "<group name=\"a*\">\n%s</group>\n" % body
    val = anything(rng)
    variables = "<vars name=\"rep\">\nval = %r\n</vars>\n" % (val,) if reported else ""
    if isinstance(val, str) and val in ("gethostname",):
        variables, reported = "", False
    tpl = "<template%s>\n%s%s%s</template>" % (" results=\"per_template\"" if per else "", mac, gen.escape(variables), grp)
    want, texts = [], []
    joined = []
    for i in range(nin):
        recs = []
        for _ in range(rng.choice([0, 1, 1, 2, 3]) if shape != "dict" or per else rng.choice([0, 1, 2])):
            w = anything(rng)
            r = repr(w)
            if r != r.strip() or "\n" in r or "\t" in r or not r.isprintable():
                w = 7
                r = "7"
            recs.append({"n": r, "w": w})
        lines = ["~ %d" % i]
        if shape == "nested":
            lines.append("start x%d" % i)
            lines += ["rec " + r["n"] for r in recs]
            w = {"p": [dict({"s": "x%d" % i}, **({"q": {"r": recs}} if recs else {}))]}
        elif shape in ("dyn", "mixed"):
            w = {"d": {}}
            for r in recs:
                k = str(rng.randint(1, 10 ** 6)) if shape == "dyn" or rng.random() < 0.5 else "k%s" % rng.randint(1, 10 ** 6)
                lines += ["id " + k, "rec " + r["n"]]
                w["d"][int(k) if ints and k.isdigit() else k] = r
            if not recs:
                w = {}
        else:
            lines += ["rec " + r["n"] for r in recs]
            if shape == "anon":
                w = recs or {}
            elif shape == "dict":
                w = {"a": {"b": recs if len(recs) > 1 else recs[0]}} if recs else {}
            else:
                w = {"a": recs} if recs else {}
        texts.append("\n".join(lines) + "\n")
        want.append(w)
        joined.append(recs)
    kw = {"dynamic_path_key_to_int": True} if ints else {}
    if ints and shape in ("dyn", "mixed"):
        M.ev("int_keys")
        M.ev("mixed_keys", shape == "mixed")
    from ttp import ttp
    plain = ttp(template=tpl, **kw)
    for t in texts:
        plain.add_input(t)
    plain.parse(one=True)
    base = plain.result()[0]
    M.note(template=tpl, data=texts)
    if not per and not reported:
        M.eq(base, want, "results parsed")
    M.ev("per_template", per)
    M.ev("several_inputs", nin > 1)
    keep = copy.deepcopy(base)
    fmts = ["json", "yaml", "pprint", "raw"]
    n = rng.randint(2, 5)
    for _ in range(n):
        fmt = rng.choice(fmts)
        M.ev(fmt)
        M.ev("by_result")
        st = rng.choice(["list", "dictionary", "flat_list"])
        M.ev("structures")
        got = plain.result(format=fmt, structure=st)
        if st == "dictionary":
            M.eq(list(got), ["_root_template_"], "templates in the dictionary")
            got = got["_root_template_"]
        elif st == "list" or fmt != "raw":
            M.eq(len(got), 1, "one text per template")
            got = got[0]
        if fmt == "raw" and st == "flat_list":
            M.eq(got, plain.result(structure="flat_list"), "raw results, flat")
        else:
            M.eq(read(fmt, got), texted(keep) if fmt == "json" else keep, "%s read back" % fmt, text=got)
        M.ev("unchanged")
        M.eq(plain.result()[0], keep, "stored results after %s" % fmt)
    # by output tag
    fmt = rng.choice(fmts)
    M.ev(fmt)
    M.ev("by_tag")
    tagged = tpl.replace("</template>", "<output %s/>\n</template>" % " ".join(rng.sample(["format=\"%s\"" % fmt, "returner=\"self\""], 2)))
    p = ttp(template=tagged, **kw)
    for t in texts:
        p.add_input(t)
    p.parse(one=True)
    M.eq(read(fmt, p.result()[0]), texted(keep) if fmt == "json" else keep, "%s requested by output tag, read back" % fmt, text=p.result()[0])
    M.case((shape, per, reported, ints, nin, fmt, hash(str(keep)) & 0xFFFFFFF), nontrivial=bool(any(want)), sample=texts[0][:300], n=n + 1)


# ------------------------------------------------------------------ tables
class Data:
    """records and a template that yields them"""

    def __init__(self, rng, M, allow_struct=True, nones=True):
        self.rng = rng
        cols = gen.words(rng, rng.randint(1, 6))
        self.cols = cols
        self.layout = rng.choice(["anon", "list", "list", "path", "keyed", "keyed", "dict"])
        self.per = rng.random() < 0.25
        self.kinds = {c: rng.choice(["text", "text", "text", "int", "list", "lit"] if allow_struct else ["text", "text", "int"]) for c in cols}
        self.kinds[cols[0]] = "text"
        lits = [c for c in cols if self.kinds[c] == "lit"]
        lines = []
        for c in cols[1:]:
            k = self.kinds[c]
            v = {"text": "%s | re(\".+\")", "lit": "%s | re(\".+\")", "int": "%s | to_int", "list": "%s | re(\".+\") | to_list | joinmatches"}[k] % c
            lines.append(" %s: {{ %s }}\n" % (c, v))
        start = "rec {{ %s | re(\".+\") }}\n" % cols[0]
        name = {"anon": "", "list": " name=\"recs*\"", "path": " name=\"top.mid.recs*\"", "keyed": " name=\"by.{{ %s }}\"" % cols[0], "dict": " name=\"one.rec\""}[self.layout]
        if self.layout == "anon":
            M.ev("anonymous")
        other = "<group name=\"other*\">\nother {{ x }}\n</group>\n" if self.layout != "anon" and rng.random() < 0.4 else ""
        self.other = bool(other)
        mac = "<macro>\nimport ast\ndef evlit(data):\n    for k in %r:\n        if k in data:\n            data[k] = ast.literal_eval(data[k])\n    return %s\n</macro>\n" % (
            lits, rng.choice(["data", "dict(reversed(list(data.items())))"])) if lits else ""
        self.tpl = "%s<group%s%s>\n%s%s</group>\n%s" % (mac, name, " macro=\"evlit\"" if lits else "", start, "".join(lines), other)
        self.path = {"anon": None, "list": "recs", "path": "top.mid.recs", "keyed": "by", "dict": "one.rec"}[self.layout]
        self.key = None
        self.texts, self.inputs = [], []
        u = gen.Uniq(rng, "r")
        big = rng.random() < 0.015
        for i in range(rng.choice([1, 1, 2, 3])):
            recs, text = [], ["~ %d" % i]
            n = rng.choice([0, 1, 1, 2, 3, 6])
            if self.layout == "dict" and not self.per:
                n = min(n, 3)
            late = None
            if big and self.layout != "dict":
                # long tables, a column has values at the end only
                M.ev("long_tables")
                n, big = rng.choice([101, 250, 520, 1010]), False
                late = cols[-1]
            for ri in range(n):
                ident = u()
                if rng.random() < 0.3:
                    M.ev("odd_cells")
                    ident += " " + rng.choice(ODD).strip()
                if self.layout == "keyed":
                    ident = re.sub("[^a-z0-9A-Z]", "", ident) or "q"
                    if any(ident == r[cols[0]] for x in self.inputs for r in x) or any(ident == r[cols[0]] for r in recs):
                        continue
                r = {cols[0]: ident}
                text.append("rec " + ident)
                for c in cols[1:]:
                    if rng.random() < 0.3 or late == c and ri < n - 2:
                        continue
                    k = self.kinds[c]
                    if k == "int":
                        v = rng.randint(0, 10 ** 6)
                        text.append(" %s: %d" % (c, v))
                    elif k == "lit":
                        v = rng.choice([None if nones else "x", True, False, 0, 0.5, "", -7, "None", {"k": 1}, {"k": {"l": "x"}, "m": [1]}])
                        text.append(" %s: %r" % (c, v))
                        M.ev("literal_cells")
                    elif k == "list":
                        v = [value(rng) for _ in range(rng.randint(1, 2))]
                        text += [" %s: %s" % (c, x) for x in v]
                        M.ev("structured_cells")
                    else:
                        v = value(rng)
                        text.append(" %s: %s" % (c, v))
                        M.ev("odd_cells", v in ODD)
                    r[c] = v
                recs.append(r)
                if self.other and rng.random() < 0.3:
                    text.append("other y")
            if self.other and rng.random() < 0.3:
                text.append("other z")
            self.inputs.append(recs)
            self.texts.append("\n".join(text) + "\n")
        M.ev("several_inputs", len(self.texts) > 1)
        M.ev("per_template", self.per)
        M.ev("single_record", any(len(x) == 1 for x in self.inputs))
        M.ev("nested_path", self.layout in ("path", "dict"))

    def text(self, extra=""):
        return "<template%s>\n%s%s</template>" % (" results=\"per_template\"" if self.per else "", self.tpl, extra)

    def parser(self, extra="", **kw):
        from ttp import ttp
        p = ttp(template=self.text(extra), **kw)
        for t in self.texts:
            p.add_input(t)
        p.parse(one=True)
        return p

    def options(self, M, force_key=True):
        """options of table formatters, records expected or None if it has to fail"""
        rng = self.rng
        opt = {}
        recs = [r for x in self.inputs for r in x]
        if self.path:
            opt["path"] = rng.choice([self.path, self.path.replace(".", " . ")])
        if self.layout == "keyed":
            M.ev("keyed")
            key = rng.choice([self.cols[0], "newkey"])
            opt["key"] = key
            recs = [dict({k: v for k, v in r.items() if k != self.cols[0]}, **{key: r[self.cols[0]]}) for r in recs]
        elif force_key and rng.random() < 0.25:
            # dictionaries that are records are not split
            M.ev("key_for_records")
            opt["key"] = rng.choice([self.cols[0], "newkey"])
        absent = [not x for x in self.inputs] if not self.per else [not recs]
        fails = False
        if self.path and any(absent):
            # path is absent from some of results
            if rng.random() < 0.8:
                M.ev("not_strict")
                opt["strict"] = False
            else:
                fails = True
        elif rng.random() < 0.2:
            opt["strict"] = rng.random() < 0.5
        heads = None
        if rng.random() < 0.5:
            M.ev("headers_given")
            allk = sorted({k for r in recs for k in r} | set(self.cols))
            heads = [k for k in allk + ["extra"] if rng.random() < 0.7] or [allk[0]]
            rng.shuffle(heads)
            opt["headers"] = rng.choice([",", ", "]).join(heads)
        missing = ""
        if rng.random() < 0.4:
            missing = rng.choice(["-", "Undefined", "n/a", "no, \"none\""])
            opt["missing"] = missing
        return opt, recs, heads, missing, fails


def expected_rows(recs, heads, missing, M):
    cols = heads or sorted({k for r in recs for k in r})
    rows = [[r.get(c, missing) for c in cols] for r in recs]
    M.ev("rows", len(rows))
    M.ev("missing_cells", sum(1 for r in recs for c in cols if c not in r))
    return cols, rows


def judge(M, got, cols, rows, heads, what):
    """got: header row and rows read back"""
    M.true(len(got) >= 1, "%s: header row" % what, got=got)
    h = list(got[0])
    if heads is not None:
        M.eq(h, cols, "%s: headers as requested" % what)
    else:
        M.eq(sorted(h), sorted(cols), "%s: one column per key" % what)
    M.eq(len(got) - 1, len(rows), "%s: one row per record" % what, table=got, want=rows)
    for r, w in zip(got[1:], rows):
        M.eq(len(r), len(h), "%s: cells of the row" % what, row=r)
        M.eq(dict(zip(h, r)), dict(zip(cols, w)), "%s: values in their columns" % what)


def attr_text(opt):
    return " ".join("%s=%s" % (k, gen.quoteattr(str(v))) for k, v in opt.items())


def case_table(rng, M):
    fmt = rng.choice(["table", "table", "csv", "csv", "tabulate"])
    M.ev(fmt)
    d = Data(rng, M, allow_struct=fmt != "tabulate")
    opt, recs, heads, missing, fails = d.options(M)
    if fmt == "tabulate":
        # cells are padded and split by lines in this rendering
        def clean(v):
            return v if not isinstance(v, str) else re.sub(r"[\t\u2028|<>&\u00a0]", "_", v)
        d.texts = ["\n".join(clean(x) if not x.startswith("~") else x for x in t.split("\n")) for t in d.texts]
        recs = [{k: clean(v) for k, v in r.items()} for r in recs]
        missing = missing.replace("|", "")
    way = rng.choice(["tag", "result", "result", "load"])
    extra = dict(opt)
    sep, quote = ",", "\""
    tfmt = None
    if fmt == "csv" and rng.random() < 0.5:
        M.ev("csv_options")
        sep = rng.choice([";", "|", ",", ":"])
        quote = rng.choice(["\"", "'", "\"", "`"])
        extra["sep"] = sep
        extra["quote"] = quote
    if fmt == "tabulate":
        M.ev("tabulate_options")
        tfmt = rng.choice(["tsv", "pipe", "html"])
        extra["format_attributes"] = "tablefmt='%s', disable_numparse=True" % tfmt
    M.note(template=d.text(), data=d.texts, options=extra, format=fmt, way=way)
    cols, rows = expected_rows(recs, heads, missing, M)
    what = "%s (%s)" % (fmt, way)
    err = got = None
    plain = d.parser()
    keep = copy.deepcopy(plain.result())
    try:
        if way == "result":
            M.ev("by_result")
            got = plain.result(format=fmt, **extra)
        elif way == "tag":
            M.ev("by_tag")
            got = d.parser("<output format=\"%s\" %s/>\n" % (fmt, attr_text(extra))).result()
        else:
            M.ev("by_tag")
            got = d.parser("<output format=\"%s\" load=\"python\">\n%s</output>\n" % (fmt, gen.escape("".join("%s = %r\n" % kv for kv in extra.items())))).result()
    except KeyError as e:
        err = e
    M.eq(plain.result(), keep, "stored results after %s" % fmt)
    M.ev("unchanged")
    if fails:
        M.ev("strict_error")
        M.true(err is not None, "%s: path that is not in results has to be reported" % what, got=got)
        M.case((fmt, way, d.layout, "fails"), nontrivial=False)
        return
    M.true(err is None, "%s raised" % what, error=repr(err))
    M.eq(len(got), 1, "%s: results of one template" % what)
    got = got[0]
    if fmt == "table":
        judge(M, got, cols, rows, heads, what)
    elif fmt == "csv":
        M.true(isinstance(got, str), "%s: text" % what)
        back = list(csv.reader(io.StringIO(got, newline=""), delimiter=sep, quotechar=quote, strict=True))
        if not cols:
            back = [[]] + back[1:]
        judge(M, back, cols, [[str(c) for c in r] for r in rows], heads, what)
    elif rows:
        M.true(isinstance(got, str), "%s: text" % what)
        if tfmt == "tsv":
            back = [[c.strip() for c in ln.split("\t")] for ln in got.split("\n")]
            # the rendering drops blanks at the end of lines
            back = [r + [""] * (len(cols) - len(r)) for r in back]
        elif tfmt == "pipe":
            back = [[c.strip() for c in ln.strip("|").split("|")] for ln in got.split("\n")]
            del back[1]
        else:
            back = [[html.unescape(c).strip() for c in re.findall(r"<t[dh][^>]*>(.*?)</t[dh]>", ln)] for ln in got.split("\n") if "<tr" in ln]
        judge(M, back, cols, [[str(c).strip() for c in r] for r in rows], heads, what)
    M.case((fmt, way, d.layout, d.per, tuple(sorted(extra)), len(rows), len(cols), hash(str(rows)) & 0xFFFFFF), nontrivial=bool(rows), sample=d.texts[0][:300])


def xl(v):
    """value of a cell as it is read back"""
    if isinstance(v, (list, dict, tuple, set)):
        return str(v)
    return None if v == "" else v


def sheet_rows(ws):
    return [list(r) for r in ws.iter_rows(values_only=True)]


def case_excel(rng, M):
    from openpyxl import load_workbook
    M.ev("excel")
    d = Data(rng, M, nones=False)   # rows of empty cells only are not kept in workbooks
    if d.per:
        d.per = False
    tabs, exps = [], []
    M.note(template=d.text(), data=d.texts)
    names = rng.sample(["first", "tab two", "x-3", "näme"], 3)
    for i in range(rng.choice([1, 1, 2, 3])):
        opt, recs, heads, missing, fails = d.options(M)
        if fails:
            opt["strict"] = False
        tab = dict(opt)
        if heads and rng.random() < 0.3:
            tab["headers"] = list(heads)
        nm = "Sheet%d" % i
        if rng.random() < 0.6:
            nm = tab["tab_name"] = names[i]
        tabs.append(tab)
        exps.append((nm, recs, heads, missing))
    M.ev("excel_tabs", len(tabs) > 1)
    way = rng.choice(["object", "file", "tagfile"])
    fname = rng.choice(["out", "out.xlsx", "rep ort.xlsx"])
    url = os.path.join(M.scratch, "xl")
    path = os.path.join(url, fname if fname.endswith(".xlsx") else fname + ".xlsx")
    plain = d.parser()
    keep = copy.deepcopy(plain.result())
    given = copy.deepcopy(tabs)

    def produce(dd, update):
        kw = {"update": True} if update else {}
        if way == "object":
            os.makedirs(url, exist_ok=True)
            p = dd.parser()
            wb = p.result(format="excel", table=tabs, filename=fname, url=url, **kw)[0]
            wb.save(path)
            M.ev("by_result")
        elif way == "file":
            p = dd.parser()
            p.result(format="excel", returner="file", table=tabs, filename=fname, url=url, **kw)
            M.ev("by_result")
        else:
            dd.parser("<output format=\"excel\" returner=\"file\" filename=\"%s\" url=\"%s\" load=\"python\">\ntable = %s\n%s</output>\n" % (fname, url, gen.escape(repr(tabs)), "update = True\n" if update else ""))
            M.ev("by_tag")

    M.note(tabs=tabs, way=way)
    if rng.random() < 0.3:
        # a file of that name is replaced unless an update is asked for
        from openpyxl import Workbook
        old = Workbook()
        old.active.title = rng.choice([exps[0][0], "junk"])
        old.active.append(["old", "header"])
        os.makedirs(url, exist_ok=True)
        old.save(path)
        M.ev("excel_replaced")
    if rng.random() < 0.1:
        try:
            plain.result(format="excel", table=[{"path": "no.such.path"}], filename=fname, url=url)
            bad = not d.inputs or None
        except KeyError:
            bad = False
        M.true(bad is False or not plain.result()[0], "excel: path that is not in results has to be reported")
        M.ev("excel_strict")
    produce(d, False)
    M.eq(tabs, given, "table description given by the caller")
    M.eq(plain.result(), keep, "stored results after excel")
    M.ev("unchanged")
    wb = load_workbook(path)
    M.eq(sorted(set(wb.sheetnames)), sorted({e[0] for e in exps}), "tabs of the workbook")
    M.eq(wb.sheetnames, [e[0] for e in exps], "tabs in order")
    for nm, recs, heads, missing in exps:
        cols, rows = expected_rows(recs, heads, missing, M)
        got = sheet_rows(wb[nm])
        if not cols:
            M.true(not any(any(c is not None for c in r) for r in got), "empty tab", got=got)
            continue
        judge(M, got, cols, [[xl(c) for c in r] for r in rows], heads, "excel tab %s" % nm)
    if rng.random() < 0.5:
        # more data is added to the file
        M.ev("excel_update")
        d2 = Data(rng, M, nones=False)
        d2.__dict__.update({k: v for k, v in d.__dict__.items() if k in ("cols", "kinds", "layout", "tpl", "path", "per")})
        d2.other = False
        d2.texts, d2.inputs = [], []
        for i in range(rng.choice([1, 2])):
            recs, text = [], ["~ second %d" % i]
            for j in range(rng.randint(1, 3)):
                r = {d.cols[0]: "upd%d%d" % (i, j)}
                text.append("rec " + r[d.cols[0]])
                for c in d.cols[1:]:
                    if rng.random() < 0.4:
                        v = rng.randint(0, 99)
                        text.append(" %s: %d" % (c, v))
                        r[c] = [str(v)] if d.kinds[c] == "list" else v if d.kinds[c] in ("int", "lit") else str(v)
                recs.append(r)
            if d.layout == "dict" and len(recs) > 1 and False:
                recs = recs[:1]
            d2.inputs.append(recs)
            d2.texts.append("\n".join(text) + "\n")
        M.note(update=d2.texts)
        produce(d2, True)
        wb2 = load_workbook(path)
        M.eq(wb2.sheetnames, wb.sheetnames, "tabs after the update")
        recs2 = [r for x in d2.inputs for r in x]
        for tab, (nm, recs, heads, missing) in zip(tabs, exps):
            more = recs2
            if d.layout == "keyed":
                more = [dict({k: v for k, v in r.items() if k != d.cols[0]}, **{tab["key"]: r[d.cols[0]]}) for r in recs2]
            got = sheet_rows(wb2[nm])
            h = got[0]
            was = heads or sorted({k for r in recs for k in r})
            allk = heads or sorted(set(was) | {k for r in more for k in r})
            if not recs and not heads:
                h = [x for x in h if x is not None]
            M.eq(sorted(h), sorted(allk), "headers after the update")
            M.eq(len(got) - 1, len(recs) + len(more), "rows after the update", table=got)
            for k, (row, rec) in enumerate(zip(got[1:], recs + more)):
                row = dict(zip(h, row))
                for c in allk:
                    if c in rec:
                        M.eq(row[c], xl(rec[c]), "cell %s after the update" % c, rows=got)
                    else:
                        M.true(row[c] in (None, xl(missing)), "cell %s without value after the update" % c, got=row[c], rows=got)
    M.case((way, d.layout, len(tabs), fname, tuple(tuple(sorted(t)) for t in tabs), hash(str(d.inputs)) & 0xFFFFFF), nontrivial=any(d.inputs), sample=str(tabs)[:300])


# ------------------------------------------------------------------ templates see whole results
def case_jinja(rng, M):
    M.ev("jinja2")
    M.ev("by_tag")
    d = Data(rng, M)
    d.per = False
    plain = d.parser()
    res = plain.result()[0]
    keep = copy.deepcopy(res)
    form = rng.choice(["whole", "loop", "mixed", "indented"])
    if form == "whole":
        body = "{{ _data_ }}"
    elif form == "loop":
        body = "{% for i in _data_ %}\n{{ loop.index }}:{{ i }}\n{% endfor %}"
    else:
        body = "{{ _data_ | length }}\n{%- for i in _data_ %}\n\n[{{ i | string | length }}]\n{%- endfor %}"
    if form == "indented":
        # lines with blocks only leave nothing behind
        body = "start\n  {% for i in _data_ %}\n    {% if i %}\nyes {{ i | length }}\n    {% else %}\n  no\n\t{% endif %}\n  {% endfor %}\nend"
    p = d.parser("<output format=\"jinja2\">%s</output>\n" % gen.escape(body))
    M.note(template=d.text(), data=d.texts, body=body)
    got = p.result()[0]
    M.true(isinstance(got, str), "jinja2: text", got=got)
    if form == "indented":
        M.eq(got, "start\n" + "".join("yes %d\n" % len(i) if i else "  no\n" for i in keep) + "end", "text made by the template")
    elif form == "whole":
        M.eq(ast.literal_eval(got), keep, "results seen by the template")
    elif form == "loop":
        lines = [x for x in got.split("\n") if x]
        M.eq([ast.literal_eval(x.split(":", 1)[1]) for x in lines], keep, "results seen by the template")
        M.eq([x.split(":", 1)[0] for x in lines], [str(i + 1) for i in range(len(keep))], "inputs in order")
    else:
        M.eq([x for x in got.split() if x], [str(len(keep))] + ["[%d]" % len(str(i)) for i in keep], "results seen by the template")
    M.case(("jinja", form, hash(str(keep)) & 0xFFFFFFF), nontrivial=any(d.inputs), sample=got[:200])


def case_sequence(rng, M):
    """any number of renderings of one parser: each as the first one, results as they were"""
    d = Data(rng, M)
    p = d.parser()
    keep = copy.deepcopy(p.result())
    M.note(template=d.text(), data=d.texts)
    seen = {}
    order = []
    for _ in range(rng.randint(4, 9)):
        fmt = rng.choice(["json", "yaml", "pprint", "raw", "table", "csv", "tabulate", "excel", "n2g", "jinja2"])
        kw = {"format": fmt}
        if fmt in ("table", "csv", "tabulate"):
            kw["strict"] = False
            if d.path:
                kw["path"] = d.path
            if d.layout == "keyed":
                kw["key"] = "thekey"
            if rng.random() < 0.3:
                kw["headers"] = ",".join(d.cols)
        if fmt == "excel":
            kw.update(table=[{"path": d.path or "", "strict": False, "key": "thekey" if d.layout == "keyed" else ""}], filename="x")
        if fmt == "n2g":
            if rng.random() < 0.5:
                continue
            M.ev("n2g")
            kw.update(path="nothing", method="from_dict", method_kwargs={})
            try:
                p.result(**kw)
            except Exception:
                pass
            M.eq(p.result(), keep, "stored results after n2g")
            continue
        if fmt == "jinja2":
            continue
        M.ev(fmt)
        M.ev("by_result")
        order.append(fmt)
        got = p.result(**kw)
        if fmt == "excel":
            for wb in got:
                wb.save(io.BytesIO())
            got = [ws.title for wb in got for ws in wb.worksheets]
        k = repr(sorted(kw.items()))
        if k in seen:
            M.eq(got, seen[k], "%s rendered again" % fmt)
        seen[k] = copy.deepcopy(got)
        M.ev("unchanged")
        M.eq(p.result(), keep, "stored results after %s" % fmt)
    M.case((tuple(order), d.layout, d.per), nontrivial=any(d.inputs) and len(order) > 1, sample=order)


def case_templates(rng, M):
    """several templates: each text holds the results of its own template, in every structure"""
    from ttp import ttp
    n = rng.choice([2, 3])
    names = gen.words(rng, n)
    ds = [Data(rng, M) for _ in range(n)]
    tagged = [rng.random() < 0.4 for _ in range(n)]
    fmts = [rng.choice(["json", "yaml", "pprint"]) for _ in range(n)]
    p, q = ttp(), ttp()
    for nm, d, tg, f in zip(names, ds, tagged, fmts):
        d.per = False
        d.tpl = d.tpl
        text = "<template>\n" + d.tpl + "%s</template>"
        p.add_template(text % "", template_name=nm)
        q.add_template(text % ("<output format=\"%s\"/>\n" % f if tg else ""), template_name=nm)
        for t in d.texts:
            p.add_input(t, template_name=nm)
            q.add_input(t, template_name=nm)
    p.parse(one=True)
    q.parse(one=True)
    base = p.result()
    keep = copy.deepcopy(base)
    M.note(templates=[d.tpl for d in ds], data=[d.texts for d in ds])
    for i, (tg, f) in enumerate(zip(tagged, fmts)):
        r = q.result()[i]
        M.eq(read(f, r) if tg else r, texted(keep[i]) if f == "json" and tg else keep[i], "template %d with its own output" % i)
    f = rng.choice(["json", "yaml", "pprint"])
    M.ev(f)
    M.ev("structures", 3)
    conv = texted if f == "json" else (lambda x: x)
    M.eq([read(f, x) for x in p.result(format=f)], [conv(x) for x in keep], "texts per template")
    M.eq({k: read(f, x) for k, x in p.result(format=f, structure="dictionary").items()}, {k: conv(x) for k, x in zip(names, keep)}, "texts by template name")
    M.eq([read(f, x) for x in p.result(format=f, structure="flat_list")], [conv(x) for x in keep], "texts in a flat list")
    sel = rng.choice(names)
    M.eq([read(f, x) for x in p.result(templates=sel, format=f)], [conv(keep[names.index(sel)])], "text of one template")
    M.eq(p.result(), keep, "stored results")
    M.ev("unchanged")
    M.case((n, tuple(tagged), f, hash(str(keep)) & 0xFFFFFF), nontrivial=any(any(d.inputs) for d in ds))


def case_n2g(rng, M):
    """diagrams hold what the diagram library makes of the records, each once and in order"""
    from ttp import ttp
    M.ev("n2g")
    M.ev("by_tag")
    module = rng.choice(["yed", "drawio", "yEd", None])
    opts = {}
    for k in ("node_duplicates", "link_duplicates"):
        if rng.random() < 0.7:
            opts[k] = rng.choice(["skip", "log", "update"])
    shape = rng.choice(["list", "list", "dict"])
    per = rng.random() < 0.4
    nodes = gen.words(rng, rng.randint(2, 5))
    texts, data, both = [], [], {"nodes": [], "links": []}
    for i in range(rng.choice([1, 1, 2, 3])):
        links, nods, text = [], [], ["~ %d" % i]
        for _ in range(rng.randint(1, 5)):
            a, b = rng.choice(nodes), rng.choice(nodes)
            # labels tell links apart: repeated links are still there
            r = {"source": a, "target": b, "src_label": rng.choice(["Gi1", "Gi2", "po 1"]), "trgt_label": "to %s" % rng.choice(["x", "y"])}
            links.append(r)
            text.append("link %s %s %s / %s" % (a, b, r["src_label"], r["trgt_label"]))
        if shape == "dict":
            for _ in range(rng.randint(1, 4)):
                r = {"id": rng.choice(nodes), "top_label": "top%d" % rng.randint(1, 9)} if module != "drawio" else {"id": rng.choice(nodes), "label": "lab%d" % rng.randint(1, 9)}
                nods.append(r)
                text.append("node %s %s" % tuple(r.values()))
        texts.append("\n".join(text) + "\n")
        data.append({"nodes": nods, "links": links} if shape == "dict" else links)
        both["nodes"] += nods
        both["links"] += links
    if per:
        data = [both if shape == "dict" else both["links"]]
    path = rng.choice(["net", "a.b"])
    grp = "<group name=\"%s.links*\">\nlink {{ source }} {{ target }} {{ src_label | ORPHRASE }} / {{ trgt_label | PHRASE }}\n</group>\n" % path
    if shape == "dict":
        grp += "<group name=\"%s.nodes*\">\nnode {{ id }} {{ %s }}\n</group>\n" % (path, "label" if module == "drawio" else "top_label")
    method = "from_dict" if shape == "dict" else "from_list"
    opts.update(path=path + ("" if shape == "dict" else ".links"), method=method)
    if rng.random() < 0.3 and shape == "list":
        del opts["method"]
    if module:
        opts["module"] = module
    if rng.random() < 0.2:
        opts["method_kwargs"] = {}
    out = "<output format=\"n2g\" load=\"python\">\n%s</output>\n" % gen.escape("".join("%s = %r\n" % kv for kv in opts.items()))
    tpl = "<template%s>\n%s%s</template>" % (" results=\"per_template\"" if per else "", grp, out)
    M.note(template=tpl, data=texts)
    p = ttp(template=tpl)
    for t in texts:
        p.add_input(t)
    p.parse(one=True)
    import N2G
    d = (N2G.drawio_diagram if module == "drawio" else N2G.yed_diagram)(node_duplicates=opts.get("node_duplicates", "skip"), link_duplicates=opts.get("link_duplicates", "skip"))
    for x in data:
        getattr(d, method)(copy.deepcopy(x))
    M.eq(p.result(), [d.dump_xml()], "diagram")
    M.case((module, shape, per, tuple(sorted(map(str, opts.items()))), hash(str(texts)) & 0xFFFFFFF), nontrivial=True, sample=tpl)


KINDS = {"tree": (case_tree, 6000, 400000), "table": (case_table, 10000, 600000), "excel": (case_excel, 1000, 60000), "jinja": (case_jinja, 1000, 60000), "sequence": (case_sequence, 1200, 75000), "templates": (case_templates, 1400, 75000),
         "n2g": (case_n2g, 700, 30000)}
