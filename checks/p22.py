"""P22 - parsing arbitrary text terminates without failing or inventing data."""
import logging
import re
import unicodedata

import gen
import p01
from gen import escape

RULE = ("generated templates of matching and filtering (nested groups, dynamic paths, all patterns, ignore, start, end, whole lines, joined matches, tables, literals, conditions) parse texts made of matching lines, damaged lines, control, "
        "non-ASCII, very long and template-like lines, mixed line ends, truncated, repeated, shuffled or random texts. Parsing must end without an exception, give the same results again, every value reported must be one the independent line reader "
        "of P01 gets from a line of the text for that variable, not more often than there are such lines. For texts of records, lines that no template line reads, put before, after, between records or anywhere, must change nothing, texts put "
        "together or repeated give results put together, and a truncated text gives the complete records of the full one. Non-trivial: values were reported.")
NEED = {"log_debug": 14, "log_level": 33, "tag_case": 85, "neutral": 400, "comment": 703, "xml_comment": 366, "no_variables": 362, "blank_line": 1048, "alias": 569, "respaced": 1088, "tag_doc": 52, "tag_no_group": 219,
        "wrapped": 123, "hostile": 1200, "values": 785142, "leaves_checked": 5923, "counts_checked": 2018, "damaged": 4747, "control": 1910, "unicode": 1959, "long_line": 974, "truncated": 115, "repeated": 115, "empty": 60,
        "random_text": 74, "shuffled": 56, "mixed_eol": 358, "filters": 5789, "again": 353, "again_fresh": 346, "dynamic_path": 1170, "whole_line": 570, "joined": 226, "table": 176, "constants": 376, "start": 886, "end": 423,
        "noise": 800, "noise_before": 396, "noise_after": 472, "noise_between": 838, "noise_anywhere": 1412, "far": 195, "concatenated": 400, "times": 111, "cut": 1183, "records_kept": 1857, "from_file": 98, "line_with_end":
        412, "nested": 2270, "distance": 24}
ASSUME = ["digits are the ASCII digits: texts have no other decimal digits", "files are UTF-8", "time taken by regular expressions over long lines is bounded by the limit of a case only"]
CASE_LIMIT = 60

FILTERS = ['contains("a")', 'contains("1", "x")', 'notequal("zz")', 'startswith_re("[a-z0-9]")', 'endswith_re("\\\\S")', "isdigit", "notdigit", "is_ip", 'exclude("~")', 'exclude_re("^x")', 'notstartswith_re("#")', 'greaterthan("5")',
           'lessthan("500")', 'contains_re("[a-z]")', 'equal("up")', 'cidr_match("10.0.0.0/8")', 'notendswith_re("z")']
GFILTERS = ['contains="%s"', 'containsall="%s"', 'void=""', 'exclude="nothere"', 'contains="%s, other"', 'functions="contains(\'%s\')"', 'functions="exclude_val(\'%s\', \'zz\')"', 'functions="contains_val(\'%s\', \'a\')"']


class TLine:
    """a template line: text for the template, reader of values"""

    def __init__(self, toks, indent, text, exact=False, kind="line", join=None):
        self.toks, self.indent, self.text, self.exact, self.kind, self.join = toks, indent, text, exact, kind, join
        self.vars = [t[1] for t in toks if t[0] == "var"]
        self.memo = {}

    def read(self, line):
        """None when not decided, else readings"""
        if line not in self.memo:
            if self.kind != "line":
                self.memo[line] = None
            elif len(line) > 3000:
                self.memo[line] = None
            else:
                try:
                    self.memo[line] = p01.readings(self.toks, self.indent, line, self.exact, False, 400)
                except OverflowError:
                    self.memo[line] = None
        return self.memo[line]

    def good(self, rng):
        if self.kind in ("line",):
            return p01.good_line(rng, self.toks, self.indent, self.exact, False)
        if self.kind == "const":
            return self.indent + self.toks[0][1]
        if self.kind == "table":
            return "".join((gen.word(rng, 1, 6)).ljust(8) for _ in self.vars)
        return self.indent + gen.noise(rng, "")


class Tmpl:
    def __init__(self, rng, M):
        self.rng, self.M = rng, M
        self.n = 0
        self.lines = []
        self.static = set()
        self.dynamic = []
        self.consts = set()
        top = [self.group(0) for _ in range(rng.choice([1, 1, 2, 3]))]
        if rng.random() < 0.1:
            self.lines = []
            tl = [self.line(0) for _ in range(rng.randint(1, 4))]
            self.static, self.dynamic = set(), []
            top = ["\n".join(t.text for t in tl)]
        self.text = "\n".join(top)

    def pre(self):
        self.n += 1
        return "q" + "".join(chr(97 + int(c)) for c in str(self.n)) + "_"

    def line(self, ind, first=False):
        rng = self.rng
        pre = self.pre()
        r = rng.random()
        indent = " " * ind if rng.random() < 0.8 else rng.choice(["", " ", "\t"])
        if not first and r < 0.06:
            v = pre + "w"
            self.M.ev("whole_line")
            f = rng.choice(["", ' | contains("a")', ' | joinmatches("<~>")', ' | contains_re("^\\\\S")'])
            t = TLine([("var", v, [".+"], v)], indent, escape("%s{{ %s | _line_%s }}" % (indent, v, f)), kind="whole", join="<~>" if "join" in f else "\n")
            self.lines.append(t)
            return t
        if not first and r < 0.1:
            v = pre + "c"
            k = rng.choice(gen.KEYWORDS)
            c = rng.choice(["const", "True1", "v-%s" % pre])
            self.consts.add(c)
            self.M.ev("constants")
            t = TLine([("lit", k), ("var", v, [], v)], indent, "%s%s {{ %s | set(\"%s\") }}" % (indent, k, v, c), kind="const")
            self.lines.append(t)
            return t
        toks, varsdef = p01.make_template(rng)
        toks = [t for t in toks]
        out = []
        nvar = 0
        for t in toks:
            if t[0] == "var":
                nvar += 1
                if nvar > 3:
                    continue
                name = pre + re.sub(r"\W", "x", t[1])
                decl = name + t[3][len(t[1]):]
                for k, p in varsdef.items():
                    decl = decl.replace("re('%s')" % k, 're("%s")' % p)
                out.append(("var", name, t[2], decl))
            else:
                out.append(t)
        toks = out
        vs = [i for i, t in enumerate(toks) if t[0] == "var"]
        join = None
        for i in vs:
            x = rng.random()
            if x < 0.2:
                toks[i] = toks[i][:3] + (toks[i][3] + " | " + rng.choice(FILTERS),)
                self.M.ev("filters")
            elif x < 0.27 and len(vs) == 1 and not first:
                toks[i] = toks[i][:3] + (toks[i][3] + ' | joinmatches("<~>")',)
                join = "<~>"
                self.M.ev("joined")
        mark = None
        exact = False
        x = rng.random()
        if x < 0.1:
            mark, exact = "_exact_", True
        elif x < 0.2 and not join:
            mark = rng.choice(["_start_", "_end_"]) if not first else "_start_"
            self.M.ev("start" if mark == "_start_" else "end")
        t = TLine(toks, indent, escape(p01.render_template(rng, toks, indent, mark)), exact, join=join)
        self.lines.append(t)
        return t

    def group(self, depth):
        rng = self.rng
        if depth == 0 and rng.random() < 0.07:
            return self.table()
        name = self.pre() + "g"
        first = self.line(depth, first=True)
        lines = [first] + [self.line(depth + 1) for _ in range(rng.randint(0, 4))]
        wordvar = [v for t in lines if t.kind == "line" and not t.join for v in t.vars]
        if rng.random() < 0.25 and wordvar:
            v = rng.choice(wordvar)
            self.dynamic.append(v)
            self.static |= {name}
            path = name + rng.choice([".{{ %s }}", "*.{{ %s }}", ".{{ %s }}*", ".{{ %s }}.sub"]) % v
            self.static.add("sub")
            self.M.ev("dynamic_path")
        else:
            self.static |= {name, name + "x"}
            path = rng.choice([name, name + "*", name + "." + name + "x", name + "*." + name + "x*"])
        attr = ""
        if rng.random() < 0.15:
            f = rng.choice(GFILTERS)
            attr = " " + (f % rng.choice(wordvar or ["zz"]) if "%s" in f else f)
            self.M.ev("filters")
        kids = ""
        if depth < 2:
            for _ in range(rng.choice([0, 0, 0, 1, 2])):
                kids += self.group(depth + 1) + "\n"
                self.M.ev("nested")
        return '<group name="%s"%s>\n%s\n%s</group>' % (path, attr, "\n".join(t.text for t in lines), kids)

    def table(self):
        rng = self.rng
        pre = self.pre()
        cols = [pre + c for c in "abc"[:rng.randint(2, 3)]]
        self.M.ev("table")
        name = pre + "t"
        self.static.add(name)
        t = TLine([("var", c, [".*"], c) for c in cols], "", "".join(c.ljust(8) for c in cols) + " {{ _headers_ }}", kind="table")
        self.lines.append(t)
        return '<group name="%s">\n%s\n</group>' % (name, t.text)


CTRL = [chr(c) for c in range(1, 32) if chr(c) not in "\n"] + ["\x7f", "\x85", "\u2028", "\u2029", "\x00", "\ufeff", "\u200b", "\u200e", "\u202e", "\xa0", "\u3000", "\u0301"]


def uni(rng, n):
    out = []
    while len(out) < n:
        c = chr(rng.choice([rng.randint(0x80, 0x17f), rng.randint(0x370, 0x5ff), rng.randint(0x4e00, 0x4fff), rng.randint(0x1f300, 0x1f5ff), rng.randint(0x2000, 0x2bff), rng.randint(0x80, 0xd7ff), rng.randint(0xe000, 0x10ffff)]))
        if not c.isdecimal():
            out.append(c)
    return "".join(out)


def hostile_line(rng, M, base, long=1):
    """long: several variables in a line take polynomial time over long runs, keep these short"""
    r = rng.randrange(12)
    if r == 0:
        M.ev("control")
        return "".join(rng.choice(CTRL + list("ab 1")) for _ in range(rng.randint(1, 20)))
    if r == 1 and base:
        M.ev("control")
        i = rng.randrange(len(base) + 1)
        return base[:i] + "".join(rng.choice(CTRL) for _ in range(rng.randint(1, 3))) + base[i:]
    if r == 2:
        M.ev("unicode")
        return uni(rng, rng.randint(1, 30))
    if r == 3 and base:
        M.ev("unicode")
        i = rng.randrange(len(base) + 1)
        return base[:i] + uni(rng, rng.randint(1, 3)) + base[i:]
    if r == 4:
        M.ev("long_line")
        return rng.choice([rng.choice("a1.:{") * rng.randint(100, 250 * long), rng.choice(" \t") * rng.randint(20, 80 * long), "ab " * rng.randint(20, 60 * long), base + " " + "x" * 150 * long, "1." * 100 * long, "a:" * 100 * long, "ff::" * 60 * long])
    if r == 5:
        return rng.choice(["{{ x }}", "}}", "{{", "<group>", "</group>", "]]>", "&lt;", "(?P<x>", "\\n", "\\", "[", "(*", "%s %d", "$1", "\\g<1>", "_start_", "_headers_", "{{ _line_ }}", "{0}", "None", "<~>"])
    if r == 6:
        return rng.choice(["", " ", "\t", "   \t  ", "\r", "\x0b", "\x0c"])
    if r == 7:
        return "".join(chr(rng.randint(0, 255)) for _ in range(rng.randint(1, 40))).replace("\n", "")
    if r == 8:
        return base.upper() if rng.random() < 0.5 else base[::-1]
    if r == 9:
        return " ".join(rng.sample(base.split(" "), len(base.split(" "))))
    return gen.noise(rng)


def text_lines(rng, M, T, n):
    out = []
    for _ in range(n):
        t = rng.choice(T.lines)
        base = t.good(rng)
        x = rng.random()
        if x < 0.5:
            out.append(base)
        elif x < 0.7:
            out.append(p01.mutate(rng, base, t.indent))
            M.ev("damaged")
        elif x < 0.9:
            out.append(hostile_line(rng, M, base))
        elif out:
            out.append(rng.choice(out))
    return [x for x in out if not any(c.isdecimal() and not ("0" <= c <= "9") for c in x)]


def walk(o, T, found, path=()):
    """collect (variable, value), containers with unknown keys"""
    if isinstance(o, list):
        for x in o:
            walk(x, T, found, path)
    elif isinstance(o, dict):
        for k, v in o.items():
            if k in T.names and not isinstance(v, (dict, list)):
                found.append((k, v))
            else:
                found.append((None, k))
                if not isinstance(v, (dict, list)):
                    found.append(("?", v))
                else:
                    walk(v, T, found, path + (k,))
    else:
        found.append(("?", o))


def check_provenance(M, T, res, text):
    T.names = {v: t for t in T.lines for v in t.vars}
    lines = [x[:-1] if x.endswith("\r") else x for x in text.split("\n")]
    found = []
    walk(res, T, found)
    counts = {}
    possible, cover = {}, {}
    for v, t in T.names.items():
        vals, n, sure = set(), 0, True
        for ln in lines:
            rs = t.read(ln)
            if rs is None:
                sure = False
            elif rs:
                n += 1
                vals |= {dict(r)[v] for r in rs}
        possible[v], cover[v] = (vals, sure), n
    dyn = [(x, possible[x]) for x in T.dynamic]
    for v, val in found:
        M.ev("values")
        if v is None:
            if val in T.static or val in T.consts:
                continue
            ok = any((val in p or not sure or any("." in q or "*" in q for q in p)) for _, (p, sure) in dyn)
            M.true(ok, "key of results comes neither from the template nor from the text", got_key=val, dynamic=T.dynamic)
            M.ev("leaves_checked")
            continue
        M.true(v != "?", "value reported under no variable of the template", got_value=repr(val))
        t = T.names[v]
        M.true(isinstance(val, str), "reported value is not text", variable=v, got_value=repr(val))
        if t.kind == "const":
            M.true(val in T.consts, "value of a constant", got_value=val)
            counts[v] = counts.get(v, 0) + 1
            continue
        for piece in val.split(t.join) if t.join and "<~>" not in text else [val]:
            counts[v] = counts.get(v, 0) + 1
            if t.join and "<~>" in text:
                continue
            vals, sure = possible[v]
            if sure or piece in vals:
                M.true(piece in vals, "value reported is not one the template line reads from the text", variable=v, value=piece, line=t.text)
                M.ev("leaves_checked")
            else:
                M.true(any(piece in ln for ln in text.split("\n")), "value reported does not occur in the text", variable=v, value=piece)
    for v, n in counts.items():
        t = T.names[v]
        if possible[v][1] and t.kind == "line" and "<~>" not in text:
            M.ev("counts_checked")
            M.true(n <= cover[v], "more values reported than lines that give them", variable=v, reported=n, lines=cover[v], line=t.text)
    return len(found)


def case_hostile(rng, M):
    from ttp import ttp
    T = Tmpl(rng, M)
    kind = rng.random()
    ls = text_lines(rng, M, T, rng.choice([3, 10, 20, 30]))
    if rng.random() < 0.3:
        eol = [rng.choice(["\n", "\n", "\r\n", "\r", "\n\n", "\n\r", "\x0b", "\u2028"]) for _ in ls]
        M.ev("mixed_eol")
    else:
        eol = [rng.choice(["\n", "\n", "\r\n"])] * len(ls)
    text = "".join(a + b for a, b in zip(ls, eol))
    if kind < 0.1:
        text = text[:rng.randint(0, len(text))]
        M.ev("truncated")
    elif kind < 0.2:
        text = text * rng.randint(2, 3)
        M.ev("repeated")
    elif kind < 0.25:
        text = rng.choice(["", " ", "\n", "\n\n\n", "\r\n", "\t\n ", "\x00", "\r", " \n" * 50])
        M.ev("empty")
    elif kind < 0.32:
        text = "".join(rng.choice(CTRL + list("\n\n\n  abc123")) for _ in range(rng.randint(1, 300)))
        M.ev("random_text")
    elif kind < 0.38:
        c = list(text)
        for _ in range(rng.randint(1, 30)):
            if c:
                i = rng.randrange(len(c))
                c[i:i + rng.choice([0, 1, 1])] = [rng.choice(["", "\n", " ", "\t", "\x00", "{", "0", "é"])]
        text = "".join(c)
        M.ev("damaged")
    elif kind < 0.43:
        rng.shuffle(ls)
        text = "\n".join(ls)
        M.ev("shuffled")
    M.ev("hostile")
    M.note(template=T.text, data=text)
    results = rng.choice(["per_input", "per_input", "per_input", "per_template"])
    tt = T.text if results == "per_input" else '<template results="per_template">\n%s\n</template>' % T.text
    p = ttp(template=tt)
    if "\r" not in text and rng.random() < 0.2:
        f = M.write("data.txt", text)
        p.add_input(f)
        M.ev("from_file")
    elif text in ("",):
        p.add_input("\n")
    else:
        p.add_input(text)
    p.parse(one=True)
    res = p.result()
    M.ev("parses")
    n = check_provenance(M, T, res, text)
    if rng.random() < 0.3:
        p.clear_result()
        p.parse(one=True)
        M.eq(p.result(), res, "results of parsing the same text again")
        M.ev("again")
    if rng.random() < 0.3:
        q = ttp(data=text or "\n", template=tt)
        q.parse(one=True)
        M.eq(q.result(), res, "results of another parser over the same text")
        M.ev("again_fresh")
    M.case(("hostile", tt, text), nontrivial=n > 1, sample=tt)


# ------------------------------------------------------------------ regular texts
class Reg:
    """groups of records with distinct line keywords, top groups give lists"""

    def __init__(self, rng, M):
        self.rng, self.M = rng, M
        self.u = gen.Uniq(rng)
        self.kws = gen.tokens(rng, len(gen.KEYWORDS))
        self.i = 0
        self.tls = []
        self.end = None
        self.line_end = rng.random() < 0.15
        self.groups = [self.group(0) for _ in range(1 if self.line_end else rng.choice([1, 1, 2]))]
        self.text = "\n".join(g["text"] for g in self.groups)

    def kw(self):
        self.i += 1
        k = self.kws[self.i % len(self.kws)]
        return k if self.i < len(self.kws) else "k%sx" % k

    def tl(self, ind, extra=""):
        k = self.kw()
        v = "v" + k
        pat = self.rng.choice(["WORD", "WORD", "ORPHRASE", "DIGIT", "PHRASE"])
        t = TLine([("lit", k), ("sp", " "), ("var", v, [pat], v)], " " * ind, "%s%s {{ %s%s%s }}" % (" " * ind, k, v, "" if pat == "WORD" else " | " + pat, extra))
        t.k, t.pat = k, pat
        self.tls.append(t)
        return t

    def group(self, depth):
        rng = self.rng
        g = {"name": "grp" + self.kw(), "lines": [self.tl(depth, rng.choice(["", "", " | _start_"]))], "kids": [], "depth": depth, "end": None, "whole": False}
        for _ in range(rng.randint(0, 3)):
            g["lines"].append(self.tl(depth + 1, rng.choice(["", "", "", ' | joinmatches(",")', ' | contains("v")'])))
        text = "\n".join(t.text for t in g["lines"])
        if self.line_end or (rng.random() < 0.3 and depth == 0):
            t = TLine([("lit", "finish"), ("lit", g["name"])], " " * depth, "%sfinish%s {{ _end_ }}" % (" " * depth, g["name"]))
            g["end"] = t
            if self.line_end:
                g["whole"] = True
                text += "\n%s{{ rest | _line_ | joinmatches(\"|\") }}" % " "
            text += "\n" + t.text
            self.tls.append(t)
        if depth < 2 and not self.line_end:
            for _ in range(rng.choice([0, 0, 1, 2])):
                k = self.group(depth + 1)
                g["kids"].append(k)
                text += "\n" + k["text"]
        star = "*" if depth == 0 or rng.random() < 0.5 else ""
        g["text"] = '<group name="%s%s">\n%s\n</group>' % (g["name"], star, text)
        return g

    def value(self, pat):
        if pat == "DIGIT":
            return str(self.rng.randint(0, 9999))
        if pat == "PHRASE":
            return "%s %s" % (self.u(), self.u())
        return self.u()

    def record(self, g):
        rng = self.rng
        out = ["%s%s %s" % (g["lines"][0].indent, g["lines"][0].k, self.value(g["lines"][0].pat))]
        for t in g["lines"][1:]:
            for _ in range(rng.choice([0, 1, 1, 2]) if "join" in t.text else rng.choice([0, 1, 1])):
                out.append("%s%s %s" % (t.indent, t.k, self.value(t.pat)))
        if g["whole"]:
            for _ in range(rng.randint(0, 2)):
                out.append(" free text %s" % self.u())
        for k in g["kids"]:
            for _ in range(rng.choice([0, 1, 2])):
                out += self.record(k)
        if g["end"]:
            out.append(g["end"].indent + "finish" + g["name"])
        return out

    def records(self, n):
        return [self.record(self.rng.choice(self.groups)) for _ in range(n)]

    def noise_line(self, M):
        rng = self.rng
        for _ in range(50):
            t = rng.choice(self.tls)
            base = p01.good_line(rng, t.toks, t.indent, False, False)
            x = rng.random()
            ln = p01.mutate(rng, base, t.indent) if x < 0.4 else hostile_line(rng, M, base, 8) if x < 0.8 else gen.noise(rng)
            if "\n" in ln or any(c.isdecimal() and c not in "0123456789" for c in ln):
                continue
            if any(t.read(ln[:-1] if ln.endswith("\r") else ln) != set() for t in self.tls):
                continue
            return ln
        return "!"


def parse(M, template, text):
    return M.parse(template, text)


def case_noise(rng, M):
    R = Reg(rng, M)
    recs = R.records(rng.randint(1, 6))
    text = "\n".join("\n".join(r) for r in recs) + "\n"
    ref = M.parse(R.text, text)
    where = []
    out = []

    def add(p, n, name):
        if rng.random() < p:
            M.ev(name)
            where.append(name)
            return [R.noise_line(M) for _ in range(n)]
        return []
    before = add(0.5, rng.choice([1, 3, 10, 40]), "noise_before")
    if rng.random() < 0.25:
        # data far from the beginning of the text
        pad = rng.choice(["!", "~ padding of text " + "x" * 40])
        before += [pad] * rng.choice([50, 200, 500])
        M.ev("far")
        where.append("far")
    out += before
    for i, r in enumerate(recs):
        if R.line_end:
            out += r
            M.ev("line_with_end")
        elif rng.random() < 0.4:
            for ln in r:
                out.append(ln)
                out += add(0.3, rng.choice([1, 2]), "noise_anywhere")
        else:
            out += r
        out += add(0.3, rng.choice([1, 2, 5]), "noise_between")
    out += add(0.6, rng.choice([1, 3, 30]), "noise_after")
    noisy = "\n".join(out) + rng.choice(["", "\n", "\n\n\n"])
    M.ev("noise")
    M.note(clean=text)
    got = M.parse(R.text, noisy)
    M.note(data=noisy, where=where)
    M.eq(got, ref, "results of the text with lines that no template line describes", where=where)
    n = len(str(ref))
    M.ev("values", n)
    M.case(("noise", R.text, noisy), nontrivial=n > 30 and bool(where), sample=R.text)


def lists(res):
    """{group: list of records} of one input"""
    r = res[0][0] if res[0] else {}
    return r if isinstance(r, dict) else {"_": r}


def case_concat(rng, M):
    R = Reg(rng, M)
    parts = [R.records(rng.randint(1, 4)) for _ in range(rng.randint(2, 3))]
    texts = ["\n".join("\n".join(r) for r in p) for p in parts]
    if rng.random() < 0.3:
        k = rng.randint(2, 4)
        texts = [texts[0]] * k
        M.ev("times")
    exp = {}
    for t in texts:
        for g, v in lists(M.parse(R.text, t)).items():
            M.true(isinstance(v, list), "records of a list group", value=v)
            exp.setdefault(g, []).extend(v)
    got = lists(M.parse(R.text, "\n".join(texts) + "\n"))
    M.ev("concatenated")
    M.eq(got, exp, "results of texts put together")
    M.ev("values", len(str(got)))
    M.case(("concat", R.text, tuple(texts)), nontrivial=bool(exp), sample=R.text)


def case_cut(rng, M):
    """a truncated text gives the complete records"""
    R = Reg(rng, M)
    R.groups = R.groups[:1]
    g = R.groups[0]
    recs = R.records(rng.randint(2, 6))
    texts = ["\n".join(r) + "\n" for r in recs]
    full = M.parse(R.text, "".join(texts))[0][0][g["name"]]
    M.eq(len(full), len(recs), "number of records")
    whole = "".join(texts)
    for k in sorted({rng.randint(0, len(whole)) for _ in range(3)}):
        done = 0
        pos = 0
        for t in texts:
            pos += len(t)
            # the last line end of a text does not matter
            if pos - 1 <= k:
                done += 1
        part = whole[:k]
        if not part.strip():
            continue
        got = M.parse(R.text, part)[0]
        got = got[0].get(g["name"], []) if got and got[0] else []
        M.eq(got[:done], full[:done], "complete records of a truncated text", cut_at=k, text=part)
        M.true(len(got) <= done + 1, "records invented from a truncated text", got=got, complete=done)
        M.ev("cut")
        M.ev("records_kept", done)
    M.ev("values", len(str(full)))
    M.case(("cut", R.text, whole), sample=R.text)


def case_distance(rng, M):
    """where in the text the data are does not matter, however far"""
    u = gen.Uniq(rng)
    tmpl = """<group name="top*">
entry {{ entry }}
 note {{ note }}
<group name="low">
 size {{ size | default("none") }}
</group>
<group name="deep.{{ k }}">
 key {{ k }}
  val {{ val | joinmatches(",") }}
</group>
</group>"""
    if rng.random() < 0.5:
        tmpl = '<group name="idle">\nnothing {{ idle | default("idle") }}\n</group>\n' + tmpl
    recs = []
    low = rng.random() < 0.3
    for _ in range(rng.randint(1, 3)):
        r = ["entry " + u(), " note " + u()]
        if low:
            r.append(" size " + u())
        for _ in range(rng.randint(0, 2)):
            r += [" key k%s" % gen.word(rng), "  val " + u(), "  val " + u()]
        recs.append("\n".join(r) + "\n")
    ref = M.parse(tmpl, "".join(recs))
    pad = ("~ " + "x" * rng.randint(30, 200) + "\n")
    n = rng.choice([10 ** 5, 10 ** 6, 9_999_900, 10_000_100, 11 * 10 ** 6]) // len(pad)
    i = rng.randint(0, len(recs))
    got = M.parse(tmpl, "".join(recs[:i]) + pad * n + "".join(recs[i:]))
    M.note(data=None, records=recs, padded_at=i, padding=n * len(pad))
    M.eq(got, ref, "results of the same data far away in the text")
    M.ev("distance")
    M.ev("values", 5)
    M.case(("distance", tmpl, tuple(recs), n, i), sample=tmpl)


# ------------------------------------------------------------------ parts of a template that describe nothing
def neutral_line(rng, M):
    x = rng.randrange(7)
    ind = rng.choice(["", "", " ", "   ", "\t", "        "])
    fake = rng.choice(["{{ qq_fake }}", "name {{ qq_fake | WORD }}", "{{ qq_fake | ORPHRASE | _start_ }}", "{{ qq | _line_ }}", "{{ qq_fake | set(1) }}", "{{ _end_ }}", "interface {{ qq }} - {{ qx | default(0) }}", "words", ""])
    if x < 2:
        M.ev("comment")
        return ind + rng.choice(["##", "## ", "###", "######  "]) + fake
    if x == 2:
        M.ev("xml_comment")
        return ind + "<!--" + rng.choice([" ", "", "\n", " <group name='qq'>\n"]) + fake + rng.choice([" ", "\n", "\n</group>\n"]) + "-->"
    if x == 3:
        M.ev("no_variables")
        return ind + rng.choice(["!", "interface", "some text of this line", "# remark", "{ x }", "{{}}", "100", "}} x {{"])
    M.ev("blank_line")
    return rng.choice(["", "", ind, " \t "])


def neutral_tag(rng, M):
    t, ev = rng.choice([("<doc>%s</doc>" % rng.choice(["some text", "{{ qq }} is\n{{ fake }}\n", ""]), "doc"), ("<doc/>", "doc"), ("<vars></vars>", "no_vars"), ('<vars name="qvars"/>', "no_vars"), ("<vars>\nqq_a = 'b'\nqq_c = [1]\n</vars>", "unused"),
                        ('<lookup name="qq_l"></lookup>', "unused"), ('<lookup name="qq_l" load="yaml">\na: {b: c}\n</lookup>', "unused"), ("<macro></macro>", "no_macro"), ("<macro>\ndef qq_f(data):\n    return 'changed'\n</macro>", "unused"),
                        ("<macro/>", "no_macro"), ('<group name="qq_g"></group>', "no_group"), ('<group name="qq_g*">\n## {{ x }}\n</group>', "no_group"), ("<output/>", "no_output"), ('<output name="qq_o"></output>', "no_output"),
                        ("<DOC>text</DOC>", "doc"), ("<variables>\n</variables>", "no_vars"), ("<v/>", "no_vars")])
    M.ev("tag_" + ev)
    return t


def respaced(rng, ln):
    """the same line of a template with other blanks inside its placeholders"""
    def one(m):
        body = m.group(1)
        if any(q in body for q in "\"'("):
            return m.group(0)
        parts = [q.strip() for q in body.split("|")]
        b = rng.choice(["", " ", "  "])
        return "{{" + b + rng.choice([" | ", "|", "  |  ", "| "]).join(parts) + b + "}}"
    return re.sub(r"{{([^{}]+)}}", one, ln)


def with_neutral(rng, M, text):
    """template text with the same meaning, from a text with every tag on a line of its own"""
    src = text.split("\n")
    if src and src[-1] == "":
        src.pop()
    tags = any(x.startswith("<group") for x in src)
    rate = rng.choice([0.1, 0.3, 0.6])
    out = []
    depth = 0
    headers = False
    alias = rng.choice(["group", "group", "g", "grp"])
    for i, ln in enumerate(src):
        top = depth == 0 and tags
        if rng.random() < rate and (depth or not tags):
            for _ in range(rng.randint(1, 2)):
                out.append(neutral_line(rng, M))
        elif top and rng.random() < rate:
            out.append(neutral_tag(rng, M))
        if ln.startswith("<group"):
            depth += 1
            if rng.random() < 0.5:
                name = alias
                if depth == 1 and rng.random() < 0.2:
                    name = rng.choice([alias.upper(), alias.title()])
                    M.ev("tag_case")
                ln = rng.choice(["", "  ", "\t"]) + "<" + name + ln[len("<group"):]
                M.ev("alias")
            if rng.random() < 0.3 and "'" not in ln:
                ln = ln.replace('" ', '"   ').replace('">', '"  >').replace("name=", "\n  name = ")
                M.ev("attributes")
            out.append(ln)
        elif ln.startswith("</group"):
            if rng.random() < rate / 2 and not headers:
                out.append(rng.choice(['<group name="qq_n"></group>', '<group name="qq_n*">\n\n</group>']))
                M.ev("tag_no_group")
            depth -= 1
            out.append(ln)
        else:
            if rng.random() < rate and not "_headers_" in ln:
                ln = respaced(rng, ln)
                M.ev("respaced")
            if rng.random() < rate and not "_headers_" in ln:
                ln += rng.choice([" ", "   ", "\t", " \t "])
                M.ev("trailing_blanks")
            headers = "_headers_" in ln
            out.append(ln)
    if tags and rng.random() < rate:
        out.append(neutral_tag(rng, M))
    return out, tags


def fix_aliases(lines):
    """closing tags as the opening ones"""
    out, stack = [], []
    for ln in lines:
        m = re.match(r"\s*<(group|grp|g)\b", ln, re.I)
        if m and "</" not in ln and not ln.rstrip().endswith("/>"):
            stack.append(m.group(1))
        elif ln == "</group>":
            ln = "</%s>" % stack.pop()
        out.append(ln)
    return out


class logged:
    """messages of the level asked for are formatted and thrown away; level restored after"""
    class Sink(logging.Handler):
        def emit(self, record):
            record.getMessage()

    def __init__(self, M, rng):
        self.level = rng.choice(["DEBUG", "debug", "INFO", "ERROR", "CRITICAL", "nonsense"])
        M.ev("log_debug" if self.level.lower() == "debug" else "log_level")

    def __enter__(self):
        self.log = logging.getLogger("ttp.ttp")
        self.old, self.sink, self.disabled, self.propagate = self.log.level, self.Sink(), logging.root.manager.disable, self.log.propagate
        self.log.addHandler(self.sink)
        logging.disable(logging.NOTSET)
        self.log.propagate = False
        return self.level

    def __exit__(self, *a):
        self.log.removeHandler(self.sink)
        self.log.setLevel(self.old)
        self.log.propagate = self.propagate
        logging.disable(self.disabled)


def case_neutral(rng, M):
    if rng.random() < 0.7:
        T = Tmpl(rng, M)
        text = "\n".join(text_lines(rng, M, T, rng.choice([5, 15, 30])))
        ref = T.text
    else:
        R = Reg(rng, M)
        text = "\n".join(x for r in R.records(rng.randint(1, 6)) for x in r)
        ref = R.text
    text = text or "\n"
    ref = re.sub(r"\n\n+", "\n", ref).replace("</group></group>", "</group>\n</group>").replace("</group></group>", "</group>\n</group>")
    if any("<group" in x and not x.startswith("<group") or "</group" in x and x != "</group>" for x in ref.split("\n")):
        return
    lines, tags = with_neutral(rng, M, ref)
    tt = "\n".join(fix_aliases(lines))
    if rng.random() < 0.3:
        tt = "%s\n%s\n</template>" % (rng.choice(["<template>", '<template name="t one">', '<template results="per_input">', "<template>"]), tt)
        if rng.random() < 0.2:
            tt = tt.replace("<template", "<Template").replace("</template", "</Template")
            M.ev("tag_case")
        M.ev("wrapped")
    if rng.random() < 0.1:
        tt = tt.replace("\n", "\r\n")
        M.ev("crlf_template")
    M.note(template=tt, plain=ref, data=text)
    a = M.parse(ref, text)
    if rng.random() < 0.12:
        with logged(M, rng) as level:
            b = M.parse(tt, text, log_level=level)
    else:
        b = M.parse(tt, text)
    M.eq(b, a, "results with comments, blank lines, documentation, empty and unused tags and other spelling in the template")
    M.ev("neutral")
    M.case(("neutral", tt, text), nontrivial=bool(a[0] and a[0][0]), sample=tt)


KINDS = {"distance": (case_distance, 60, 1500), "hostile": (case_hostile, 3000, 300000), "noise": (case_noise, 2000, 200000), "concat": (case_concat, 1000, 80000), "cut": (case_cut, 1000, 60000), "neutral": (case_neutral, 1000, 100000)}
