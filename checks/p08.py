"""P08 - match transformations compute their documented value for any text."""
import contextlib
import copy
import io
import ipaddress
import re

import gen
import vk

RULE = ("chains of 1-6 match functions over a text-to-value reference written from the documentation, each applied to a column of records with hostile text (punctuation, unicode, signs, empty pieces, "
        "almost-numbers, almost-ranges, almost-times), arguments given inline, as keywords or as names of template variables, chains also given through chain(variable). Every other value of the record "
        "and the order of the records are checked too. Non-trivial: at least one value of the column was changed by the chain.")
NEED = {"dns_answers": 397, "dns_absent": 135, "dns_other": 127, "dns_fail": 130, "dns_no_name": 124, "dns_servers": 115, "dns_replaced": 114, "raised": 95, "not_raised": 52, "empty_var": 91, "function_calls": 106958, "changed":
        29299, "unchanged_form": 4522, "var_args": 2768, "new_fields": 1770, "chain_vars": 849, "builtin_calls": 1390, "list_values": 5279, "printed": 3224, "numbers": 2383, "ranges": 1893, "times": 2559, "macs": 1104, "ips":
        600, "item_out_of_range": 216}

PIECES = ["core", "GigabitEthernet", "TenGigabitEthernet", "Ge", "1/0/1", "vlan", "10", "0", "7", "-5", "+3", "1.5", "1e3", "0x1F", "007", "1_000", "a", "aa", "A.B", "x-y", "-", ".", ",", ":", "10-13", "138,166,170-173",
          "a(b)", "[x]", "$1", "^", "*", "\\d", "\\", "\"q\"", "'s'", "&", "<tag>", "{}", "{0}", "%s", "#", "ñandú", "日本", "ß", "٣", "²", "İ", "user@host", "a=b", ";", "/", "_", "~", "true", "None", "[1, 2]",
          "10.0.0.1", "255.255.255.0", "2001:db8::1", "aabb.ccdd.eeff", "up", "Up", "UP", "e", "E"]
SEPS = [" ", " ", " ", "-", ",", ".", "/", "", ":", "  "]


def text(rng):
    s = ""
    for i in range(rng.randint(1, 5)):
        s += (rng.choice(SEPS) if i else "") + rng.choice(PIECES)
    s = s.strip()
    if rng.random() < 0.005:
        s = (s + rng.choice(SEPS)) * rng.randint(20, 60)
        s = s.strip()[:1900].strip()
    return s or "x"


def num_text(rng, M=None):
    return rng.choice([str(rng.randint(0, 99999)), "-%d" % rng.randint(0, 99), "+%d" % rng.randint(0, 99), "%d.%d" % (rng.randint(0, 99), rng.randint(0, 99)), "00%d" % rng.randint(0, 9), "1_000", "1e5", "0x10", "12a",
                       "1,000", "1 000", "--1", "٣", "²", "nan", "inf", "-", ".", "10G", "1.", ".5", "1.2.3", "½", "99999999999999999999999", "0"])


def range_text(rng):
    def part(ok=True):
        a = rng.randint(1, 300)
        if rng.random() < 0.02:
            # wide range
            return "%d-%d" % (a, a + rng.choice([40, 127, 256, 1100, 4000]))
        return rng.choice([str(a), "%d-%d" % (a, a + rng.randint(0, 12)), "%d-%d" % (a, a + 1)])
    good = ",".join(part() for _ in range(rng.randint(1, 6)))
    return rng.choice([good, good, good, "a-b", "none", "5-x", "x-5", "Gi1/1-Gi1/4", "-5", "5-", "-", "1-2-a", "vlan 5-7", ",5-7", "trunk-all"])


UNITS = [("years", ["y", "ys", "yr", "yrs", "year", "years"], 31536000), ("months", ["mo", "mos", "mth", "mths", "month", "months"], 2592000), ("weeks", ["w", "wk", "wks", "week", "weeks"], 604800),
         ("days", ["d", "day", "days"], 86400), ("hours", ["h", "hr", "hrs", "hour", "hours"], 3600), ("mins", ["min", "mins", "minute", "minutes", "m"], 60), ("secs", ["s", "sec", "secs", "second", "seconds"], 1)]


def time_text(rng):
    """text and its meaning {unit: digits} or None"""
    if rng.random() < 0.3:
        t = rng.choice(["never", "up", "1 fortnight", "10 hours ago", "5 apples", "hours", "1.5 hours", "10:32:11", "weeks 3", "3 days 2 years", "about 3 days", "1 minute 1 hour", "3 dayz", "12", "-", "2 hours, 5"])
        return t, None
    pick = sorted(rng.sample(range(7), rng.randint(1, 7)))
    if rng.random() < 0.6:
        sep, gap, long_ = ", ", " ", True
    else:
        sep, gap, long_ = rng.choice([("", "", False), (" ", "", False), (" ", " ", True), (",", " ", True), (" , ", " ", True), (" / ", " ", True)])
    out, d = [], {}
    for i in pick:
        u, forms, _ = UNITS[i]
        n = rng.choice([0, 1, 2, 3, 10, 27, 46, rng.randint(0, 400)])
        f = (forms[-1] if u != "mins" else "minutes") if long_ and rng.random() < 0.8 else (rng.choice(forms) if sep else forms[0] if u != "mins" else "m")
        if f == "mo" and sep == "":
            f = "mo"
        out.append("%d%s%s" % (n, gap, f.upper() if rng.random() < 0.05 else f))
        d[u] = str(n)
    return sep.join(out), d


# ------------------------------------------------------------------ reference
def ref_unrange(s, rc, jc):
    if rc not in s:
        return s
    out = []
    for it in s.split(jc):
        m = re.match(r"^(\d+)%s(\d+)$" % re.escape(rc), it)
        if m:
            out += [str(i) for i in range(int(m[1]), int(m[2]) + 1)]
        elif re.match(r"^\d+$", it):
            out.append(it)
        else:
            return s
    return jc.join(out)


def ref_mac(s):
    if not re.match(r"^([0-9a-fA-F]{1,4}[.:-])*[0-9a-fA-F]{1,12}$", s):
        return None
    h = re.sub("[.:-]", "", s).lower()
    if len(h) > 12:
        return None
    h = h.ljust(12, "0")
    return ":".join(h[i:i + 2] for i in range(0, 12, 2))


def to_num(kind):
    def f(v):
        try:
            return kind(v)
        except (TypeError, ValueError):
            return v
    return f


def ref_item(i):
    def f(v):
        if not len(v):
            raise IndexError
        return v[max(-len(v), min(i, len(v) - 1))]
    return f


def lit(rng, s):
    return repr(s)


SAFE = "|\n{}`"


def arg(rng, s, ctx, varable=False):
    """argument source for string s: literal or a template variable's name"""
    if varable and rng.random() < 0.35:
        n = ctx.var(s)
        ctx.M.ev("var_args")
        return rng.choice([n, repr(n)])
    return lit(rng, s)


class Ctx:
    def __init__(self, rng, M):
        self.rng, self.M, self.vars, self.names = rng, M, {}, gen.words(rng, 60)
        self.new = {}

    def name(self):
        return self.names.pop()

    def var(self, value):
        n = "v_" + self.name()
        self.vars[n] = value
        return n


def frag(rng, values):
    """a piece of one of the values, so that the function has something to do"""
    pool = [v for v in values if isinstance(v, str) and v]
    if not pool or rng.random() < 0.15:
        s = rng.choice(PIECES)
    else:
        v = rng.choice(pool)
        i = rng.randrange(len(v))
        s = v[i:i + rng.randint(1, 4)]
    s = "".join(c for c in s if c not in SAFE)
    return s or "e"


def str_func(rng, ctx, values):
    """(template source, reference) of a function for strings; reference None: not a value function"""
    M = ctx.M
    k = rng.choice(["append", "append", "prepend", "prepend", "join", "replaceall", "replaceall", "replaceall", "resub", "resub", "resuball", "resuball", "truncate", "sformat", "sformat", "to_str", "to_list", "to_unicode",
                    "item", "item", "let1", "let2", "copy", "copy", "print", "builtin", "builtin", "builtin", "split", "split", "to_int", "to_float", "unrange", "uptimeparse", "mac", "to_cidr", "ip_info"])
    f = frag(rng, values)
    if k in ("append", "prepend") and rng.random() < 0.05:
        # variable without content
        M.ev("empty_var")
        return "%s(%s)" % (k, ctx.var("")), lambda v: v
    if k == "append":
        kw = rng.random() < 0.2
        a = arg(rng, f, ctx, True)
        return "append(%s)" % a, lambda v: v + f
    if k == "prepend":
        return "prepend(%s)" % arg(rng, f, ctx, True), lambda v: f + v
    if k == "join":
        return "join(%s%s)" % (rng.choice(["", "char="]), lit(rng, f)), lambda v: f.join(v)
    if k == "replaceall":
        form = rng.choice(["one", "many", "list", "dict", "strvar"])
        g = frag(rng, values)
        h = frag(rng, values)
        if form == "one":
            return "replaceall(%s)" % lit(rng, f), lambda v: v.replace(f, "")
        if form == "many":
            return "replaceall(%s, %s, %s)" % (lit(rng, g), lit(rng, f), lit(rng, h)), lambda v: v.replace(f, g).replace(h, g)
        if form == "list":
            n = ctx.var([f, h])
            M.ev("var_args")
            if rng.random() < 0.4:
                return "replaceall(%r)" % n, lambda v: v.replace(f, "").replace(h, "")
            return "replaceall(%s, %s)" % (lit(rng, g), rng.choice([n, repr(n)])), lambda v: v.replace(f, g).replace(h, g)
        if form == "strvar":
            n = ctx.var(f)
            M.ev("var_args")
            return "replaceall(%s, %s)" % (lit(rng, g), rng.choice([n, repr(n)])), lambda v: v.replace(f, g)
        d = {"Q1": [f, h], "zz-": g}
        n = ctx.var(d)
        M.ev("var_args")
        return "replaceall(%r)" % n, lambda v: v.replace(f, "Q1").replace(h, "Q1").replace(g, "zz-")
    if k in ("resub", "resuball"):
        pats = [r"\d+", r"^.", r".$", r"[a-z]+", r"(\w)(\w)", r"\W", r"[AEIOUaeiou]", re.escape(f), "^" + re.escape(f), r"\s+", r"(?i)g", r"x*"]
        p, q = rng.choice(pats), rng.choice(pats)
        if "|" in p:
            p = r"\d"
        if "|" in q:
            q = r"\d"
        new = rng.choice(["", "N", "<>", "--", "Ge"] + ([r"\2\1"] if p == r"(\w)(\w)" else []))
        if k == "resub":
            c = rng.choice([None, None, 0, 1, 2, 3])
            word = re.sub(r"\W", "", f) or "a"
            if rng.random() < 0.25:
                n = ctx.var(word)
                M.ev("var_args")
                p = word
                src = rng.choice([n, repr(n)])
                new = "N"
            else:
                src = repr(p)
            form = rng.choice(["pos", "kw"])
            if form == "pos":
                s = "resub(%s, %r%s)" % (src, new, "" if c is None else ", %d" % c)
            else:
                s = "resub(old=%s, new=%r%s)" % (src, new, "" if c is None else ", count=%d" % c)
            return s, lambda v: re.sub(p, new, v, count=1 if c is None else c)
        if new == r"\2\1":
            new = "N"
        form = rng.choice(["one", "many", "list", "dict", "strvar", "before"])
        if form == "strvar":
            M.ev("var_args")
            word = re.sub(r"\W", "", f) or "a"
            n = ctx.var(word)
            return "resuball('N', %r)" % n, lambda v: v.replace(word, "N")
        if form == "before":
            M.ev("var_args")
            n = ctx.var([p, 5, q])
            return "resuball(%r, %r, %r)" % (new, r"\s", n), lambda v: re.sub(q, new, re.sub(p, new, re.sub(r"\s", new, v)))
        if form == "one":
            return "resuball(%r)" % p, lambda v: re.sub(p, "", v)
        if form == "many":
            return "resuball(%r, %r, %r)" % (new, p, q), lambda v: re.sub(q, new, re.sub(p, new, v))
        M.ev("var_args")
        if form == "list":
            n = ctx.var([p, q])
            return "resuball(%r, %r)" % (new, n), lambda v: re.sub(q, new, re.sub(p, new, v))
        n = ctx.var({"Te": [p], "Lo": q})
        return "resuball(%r)" % n, lambda v: re.sub(q, "Lo", re.sub(p, "Te", v))
    if k == "truncate":
        n = rng.randint(1, 5)
        return "truncate(%d)" % n, lambda v: " ".join(v.split(" ")[:n])
    if k == "sformat":
        s = rng.choice(["{}", "pre {} post", "[{}]", "{0} and {0}", "{:>12}", "ASN 65100 - {}", "no placeholder", "{{{}}}"])
        if "}}" in s:
            s = "({})"
        return "sformat(%s)" % arg(rng, s, ctx, True), lambda v: s.format(v)
    if k == "to_str" or k == "to_unicode":
        return k, lambda v: v
    if k == "to_list":
        return k, lambda v: [v]
    if k == "item":
        i = rng.choice([0, 1, 2, -1, -2, 5, 50, -50])
        if abs(i) > 5:
            M.ev("item_out_of_range")
        return "item(%s)" % rng.choice(["%d" % i, "'%d'" % i, "item_index=%d" % i]), ref_item(i)
    if k == "let1":
        return "let(%s)" % arg(rng, "L" + f, ctx), lambda v: "L" + f
    if k == "let2":
        n = "f_" + ctx.name()
        val = rng.choice(["static", "10", f, ""])
        ctx.new[n] = lambda v: val
        M.ev("new_fields")
        return "let(%r, %s)" % (n, lit(rng, val)), ("field", n, lambda v: val)
    if k == "copy":
        n = "f_" + ctx.name()
        M.ev("new_fields")
        return "copy(%r)" % n, ("field", n, lambda v: v)
    if k == "print":
        return "print", ("print",)
    if k == "builtin":
        M.ev("builtin_calls")
        fills = f[0]
        return rng.choice([
            ("upper", str.upper), ("lower", str.lower), ("title", str.title), ("swapcase", str.swapcase), ("capitalize", str.capitalize), ("casefold", str.casefold), ("strip", str.strip), ("zfill(8)", lambda v: v.zfill(8)),
            ("strip(%r)" % f, lambda v: v.strip(f)), ("lstrip(%r)" % f, lambda v: v.lstrip(f)), ("rstrip(%r)" % f, lambda v: v.rstrip(f)), ("replace(%r, 'R')" % f, lambda v: v.replace(f, "R")),
            ("center(20, %r)" % fills, lambda v: v.center(20, fills)), ("ljust(12)", lambda v: v.ljust(12)), ("rjust(12, '0')", lambda v: v.rjust(12, "0")),
            ("removeprefix(%r)" % f, lambda v: v.removeprefix(f)), ("removesuffix(%r)" % f, lambda v: v.removesuffix(f)), ("expandtabs(4)", lambda v: v.expandtabs(4)),
            ("find(%r)" % f, lambda v: v.find(f)), ("rfind(%r)" % f, lambda v: v.rfind(f))])
    if k == "split":
        M.ev("list_values")
        return rng.choice([("split", lambda v: v.split()), ("split(%r)" % f, lambda v: v.split(f)), ("split(%r, 1)" % f, lambda v: v.split(f, 1)), ("rsplit(%r, 1)" % f, lambda v: v.rsplit(f, 1)),
                           ("split(sep=%r)" % f, lambda v: v.split(f)), ("splitlines", str.splitlines)])
    if k == "to_int":
        return k, to_num(int)
    if k == "to_float":
        return k, to_num(float)
    return None, None


LIST_F = ["join", "join", "item", "item", "append", "prepend", "to_list", "to_str", "copy", "let2", "index", "count_", "to_int", "to_float"]


def list_func(rng, ctx, values):
    M = ctx.M
    flat = [x for v in values for x in v]
    f = frag(rng, flat)
    k = rng.choice(LIST_F)
    if k == "join":
        return "join(%s)" % lit(rng, f), lambda v: f.join(v)
    if k == "item":
        if any(not v for v in values):
            return None, None
        i = rng.choice([0, 1, -1, 2, -2, 7, -7])
        return "item(%s)" % rng.choice(["%d" % i, "'%d'" % i]), ref_item(i)
    if k == "append":
        return "append(%s)" % arg(rng, f, ctx, True), lambda v: v + [f]
    if k == "prepend":
        return "prepend(%s)" % arg(rng, f, ctx, True), lambda v: [f] + v
    if k in ("to_list", "to_int", "to_float"):
        return k, lambda v: v
    if k == "to_str":
        return k, str
    if k == "copy":
        n = "f_" + ctx.name()
        M.ev("new_fields")
        return "copy(%r)" % n, ("field", n, lambda v: list(v))
    if k == "let2":
        n = "f_" + ctx.name()
        M.ev("new_fields")
        return "let(%r, %s)" % (n, lit(rng, f)), ("field", n, lambda v: f)
    if k == "index":
        if any(not v for v in values):
            return None, None
        return None, None
    if k == "count_":
        return "__len__", len
    return None, None


NOFIELD = object()


def apply(chain, v, printed):
    fields = {}
    for src, ref in chain:
        if isinstance(ref, tuple):
            if ref[0] == "field":
                x = ref[2](v)
                if x is not NOFIELD:
                    fields[ref[1]] = x
            else:
                printed.append(v)
        else:
            v = ref(v)
    return v, fields


def build(rng, M, values, ctx, start=None, n=None):
    chain = []
    cur = list(values)
    if start:
        chain.append(start)
        cur = [apply([start], v, [])[0] for v in cur]
    n = (rng.randint(1, 6) if rng.random() < 0.97 else rng.randint(7, 14)) if n is None else n
    tries = 0
    while len(chain) < n and tries < 40:
        tries += 1
        types = {type(v) for v in cur}
        if types == {str}:
            if any(len(v) > 2000 for v in cur):
                break
            src, ref = str_func(rng, ctx, cur)
        elif types == {list} and all(isinstance(x, str) for v in cur for x in v):
            src, ref = list_func(rng, ctx, cur)
        else:
            src, ref = rng.choice([("to_str", str), ("to_list", lambda v: v if isinstance(v, list) else [v]), ("print", ("print",))])
            if rng.random() < 0.3:
                nm = "f_" + ctx.name()
                src, ref = "copy(%r)" % nm, ("field", nm, lambda v: v)
            if rng.random() < 0.3:
                break
        if src is None or "|" in src or "\n" in src or "}}" in src:
            continue
        # one field name is used once; "item" of an empty text is not defined
        try:
            nxt = [apply([(src, ref)], v, [])[0] for v in cur]
        except (IndexError, ValueError):
            continue
        chain.append((src, ref))
        cur = nxt
        if not all(isinstance(v, (str, list, int, float, dict)) for v in cur):
            break
    return chain


def run(rng, M, values, chain, ctx, label):
    """template of several records, one column through the chain, neighbours untouched"""
    names = gen.words(rng, 6)
    kn, xn, yn, zn = names[:4]
    srcs = [s for s, _ in chain]
    col_first = rng.random() < 0.4
    varline = ""
    if rng.random() < 0.12 and srcs and all("'" not in s or '"' not in s for s in srcs):
        cn = "chain_" + names[4]
        if rng.random() < 0.5:
            ctx.vars[cn] = list(srcs)
        else:
            ctx.vars[cn] = " | ".join(srcs)
        srcs = ["chain(%s)" % rng.choice([cn, repr(cn)])]
        M.ev("chain_vars")
    src = gen.escape(" | ".join(['re(".+")'] + srcs))
    ln = "%s :{{ %s | %s }}: tail {{ %s }}" % (names[5], xn, src, yn) if col_first else "%s {{ %s }} text {{ %s | %s }}" % (names[5], yn, xn, src)
    v = ""
    if ctx.vars:
        v = '<vars load="python">\n%s\n</vars>\n' % "\n".join("%s = %s" % (k, gen.escape(repr(x))) for k, x in ctx.vars.items())
    t = v + '<group name="g*">\nrec {{ %s }}\n %s\n end {{ %s }}\n</group>' % (kn, ln, zn)
    rows, exp, printed = [], [], []
    if rng.random() < 0.2:
        values = list(values) + rng.sample(values, min(2, len(values)))
    for i, val in enumerate(values):
        rows += ["rec r%d" % i, " %s :%s: tail %s" % (names[5], val, "y%d" % i) if col_first else " %s y%d text %s" % (names[5], i, val), " end z%d" % i]
        r, fields = apply(chain, val, printed)
        e = {kn: "r%d" % i, yn: "y%d" % i, zn: "z%d" % i, xn: r}
        e.update(fields)
        exp.append(e)
        M.ev("function_calls", len(chain))
        M.ev("changed" if r != val else "same")
        if isinstance(r, list):
            M.ev("list_values")
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        res = M.parse(t, "\n".join(rows))
    M.eq(res, [[{"g": exp}]], label)
    M.eq(out.getvalue(), "".join("%s\n" % (p,) for p in printed), "printed values")
    if any(isinstance(x, (list, dict)) for e in exp for x in e.values()) and rng.random() < 0.5:
        # values are computed for each match: whatever the caller does to one record shows nowhere else
        M.ev("owned_values")
        want = copy.deepcopy(exp)
        for r, e in zip(res[0][0]["g"], want):
            M.eq(r, e, label + ": record after other records were modified")
            for x in r.values():
                ruin(x)
        with contextlib.redirect_stdout(out):
            res = M.parse(t, "\n".join(rows))
        M.eq(res, [[{"g": want}]], label + ": parsed again after the results were modified")
    M.ev("printed", len(printed))
    M.case((t, tuple(rows)), nontrivial=any(not (type(e[xn]) is str and e[xn] == v) for e, v in zip(exp, values)), sample={"template": t, "expected": exp[:2]})


def ruin(x):
    """take the content out of containers"""
    if isinstance(x, (list, dict)):
        for y in list(x.values() if isinstance(x, dict) else x):
            ruin(y)
        x.clear()


def cols(rng, make):
    out = []
    for _ in range(rng.randint(2, 8)):
        s = make(rng)
        if "\n" in s or s != s.strip() or not s:
            continue
        out.append(s)
    return out or ["x"]


def chains(rng, M):
    """arbitrary chains over hostile text"""
    values = cols(rng, text)
    ctx = Ctx(rng, M)
    run(rng, M, values, build(rng, M, values, ctx), ctx, "chain of match functions")


def numbers(rng, M):
    values = cols(rng, num_text)
    ctx = Ctx(rng, M)
    k, f = rng.choice([("to_int", int), ("to_float", float)])
    chain = [(k, to_num(f))]
    for v in values:
        M.ev("numbers")
        if to_num(f)(v) is v:
            M.ev("unchanged_form")
    chain = build(rng, M, values, ctx, chain[0], rng.randint(1, 3))
    run(rng, M, values, chain, ctx, "number conversion")


def ranges(rng, M):
    values = cols(rng, range_text)
    jc = rng.choice([",", ",", " ", ";"])
    rc = rng.choice(["-", "-", "~", "to"])
    values = [v.replace(",", jc).replace("-", rc) for v in values]
    values = [v for v in values if v == v.strip()] or ["5"]
    # text with items that are not numbers next to ranges has no documented expansion
    values = [v for v in values if rc not in v or ref_unrange(v, rc, jc) != v or not re.search(r"\d+%s\d+" % re.escape(rc), v)] or ["5"]
    ctx = Ctx(rng, M)
    for v in values:
        M.ev("ranges")
        if ref_unrange(v, rc, jc) == v:
            M.ev("unchanged_form")
    src = rng.choice(["unrange(%r, %r)", "unrange(rangechar=%r, joinchar=%r)"]) % (rc, jc)
    chain = build(rng, M, values, ctx, (src, lambda v: ref_unrange(v, rc, jc)), rng.randint(1, 3))
    run(rng, M, values, chain, ctx, "range expansion")


def times(rng, M):
    table = {}
    for _ in range(rng.randint(2, 8)):
        t, d = time_text(rng)
        table[t] = d
    fmt = rng.choice(["seconds", "dict", None])
    mult = {u: m for u, _, m in UNITS}

    def ref(v):
        d = table[v]
        M.ev("times")
        if d is None:
            M.ev("unchanged_form")
            return v
        if fmt == "dict":
            return d
        return sum(mult[u] * int(n) for u, n in d.items())
    ctx = Ctx(rng, M)
    src = "uptimeparse" if fmt is None else rng.choice(["uptimeparse(%r)", "uptimeparse(format=%r)"]) % fmt
    run(rng, M, list(table), [(src, ref)], ctx, "uptime conversion")


def macs(rng, M):
    table = {}
    for _ in range(rng.randint(3, 8)):
        m = gen.mac(rng)
        if rng.random() < 0.3:
            m = m.upper()
        if rng.random() < 0.2:
            m = re.sub("[.:-]", "", m)[:rng.randint(1, 12)]
        if rng.random() < 0.2 and "." in m:
            m = m[:-rng.randint(1, 4)].rstrip(".")
        bad = rng.random() < 0.2
        if bad:
            m = rng.choice(["not a mac", "aa bb cc", "(incomplete)", "**", "aabb/ccdd", "aa_bb"])
        table[m] = m if bad else ref_mac(m)
        if bad:
            M.ev("unchanged_form")
        M.ev("macs")
    ctx = Ctx(rng, M)
    run(rng, M, list(table), [("mac_eui", lambda v: table[v])], ctx, "MAC address conversion")


def ref_ip(v, arg=None):
    w = v.replace(" ", "/")
    if "/" in w:
        return {None: ipaddress.ip_interface, "ipv4": ipaddress.IPv4Interface, "ipv6": ipaddress.IPv6Interface}[arg](w)
    return {None: ipaddress.ip_address, "ipv4": ipaddress.IPv4Address, "ipv6": ipaddress.IPv6Address}[arg](w)


ATTRS = ["compressed", "exploded", "is_private", "version", "max_prefixlen", "is_multicast", "is_link_local", "is_loopback", "is_reserved", "is_unspecified"]
NETATTRS = ["with_prefixlen", "with_netmask", "with_hostmask"]


def ref_info(v):
    o = ref_ip(v) if isinstance(v, str) else v
    d = {a: getattr(o, a) for a in ATTRS}
    d["ip"] = str(o).split("/")[0] if "/" in str(o) else str(o)
    if "/" in str(o):
        d["ip"] = str(o.ip)
        d.update({a: getattr(o, a) for a in NETATTRS})
        d.update(hostmask=str(o.hostmask), netmask=str(o.netmask), network=str(o.network), broadcast_address=str(o.network.broadcast_address), network_address=str(o.network.network_address),
                 num_addresses=2 ** (o.max_prefixlen - o.network.prefixlen), hosts=2 ** (o.max_prefixlen - o.network.prefixlen) - 2, prefixlen=o.network.prefixlen)
    return d


def ips(rng, M):
    def four():
        return rng.choice([gen.ip4(rng), "10.0.0.%d" % rng.randint(0, 255), "127.0.0.1", "224.0.0.5", "0.0.0.0", "169.254.1.1", "192.168.%d.1" % rng.randint(0, 255), "255.255.255.255"])

    def six():
        return rng.choice(["fe80::%x" % rng.randint(0, 65535), "2001:db8::%x:%x" % (rng.randint(0, 9999), rng.randint(1, 999)), "::1", "::", "ff02::5", "2001:DB8:0:0:0:0:0:1"])

    def addr(fam):
        return four() if fam == 4 else six()

    def intf(fam):
        p = rng.randint(0, 32 if fam == 4 else 128)
        a = addr(fam)
        if fam == 4 and rng.random() < 0.4:
            return "%s %s" % (a, ipaddress.ip_network("0.0.0.0/%d" % p).netmask)
        return "%s/%d" % (a, p)
    form = rng.choice(["addr", "intf", "info", "info", "net", "cidr"])
    fam = rng.choice([4, 4, 6])
    M.ev("ips")
    ctx = Ctx(rng, M)
    arg_ = rng.choice([None, "ipv%d" % fam]) if form in ("addr", "intf") else None
    toip = ("to_ip" if arg_ is None else "to_ip(%r)" % arg_, lambda v: ref_ip(v, arg_))
    if form == "addr":
        values = [addr(fam) for _ in range(rng.randint(2, 6))]
        a = rng.choice(["compressed", "exploded", "version", "max_prefixlen", "__str__"])
        chain = [toip, (a if a != "__str__" else "to_str", (lambda v: getattr(v, a)) if a != "__str__" else str)]
    elif form == "intf":
        values = [v for v in (intf(fam) for _ in range(rng.randint(2, 6))) if arg_ != "ipv6" or " " not in v]
        a = rng.choice(NETATTRS + ["compressed", "str"])
        chain = [toip, (a if a != "str" else "to_str", (lambda v: getattr(v, a)) if a != "str" else str)]
    elif form == "info":
        values = [rng.choice([addr, intf])(fam) for _ in range(rng.randint(2, 6))] + rng.choice([[], ["unassigned"], ["dhcp client"], ["10.0.0.256"], ["1.1.1.1/33"]])
        bad = {"unassigned", "dhcp client", "10.0.0.256", "1.1.1.1/33"}
        for v in values:
            if v in bad:
                M.ev("unchanged_form")
        if bad & set(values) or rng.random() < 0.5:
            chain = [("ip_info", lambda v: v if v in bad else ref_info(v))]
        else:
            chain = [("to_ip", ref_ip), ("ip_info", ref_info)]
    elif form == "net":
        values = [str(ipaddress.ip_network(addr(fam) + "/%d" % rng.randint(1, 32), strict=False)) for _ in range(rng.randint(2, 6))]
        a = rng.choice(["with_prefixlen", "with_netmask", "num_addresses", "prefixlen", "to_str"])
        chain = [("to_net", ipaddress.ip_network), (a, (lambda v: getattr(v, a)) if a != "to_str" else str)]
    else:
        values = [str(ipaddress.ip_network("0.0.0.0/%d" % rng.randint(0, 32)).netmask) for _ in range(rng.randint(2, 6))] + rng.choice([[], ["none"], ["a.b.c.d"], ["mask"]])
        for v in values:
            if v[0] not in "0123456789":
                M.ev("unchanged_form")
        chain = [("to_cidr", lambda v: ipaddress.ip_network("0.0.0.0/" + v).prefixlen if v[0] in "0123456789" else v)]
    run(rng, M, values, chain, ctx, "IP conversion")


def names(rng, M):
    """DNS functions against servers of this process: answers, absent names, failing servers, texts that are no names"""
    import dnsstub
    zones = dnsstub.start()
    zones.clear()
    reverse = rng.random() < 0.4
    add = rng.random() < 0.5
    kind = "PTR" if reverse else rng.choice(["A", "A", "AAAA", "TXT", "CNAME"])
    servers = rng.choice([None, None, None, ["127.0.0.2"], ["127.0.0.3"], ["127.0.0.2", "127.0.0.3"]])
    use = servers or ["127.0.0.1"]
    values, want = [], {}
    slow = rng.random() < 0.03
    for i in range(rng.randint(2, 6)):
        v = gen.ip4(rng) if reverse and rng.random() < 0.7 else "2001:db8::%x" % rng.randint(1, 65535) if reverse else rng.choice(["host%d.example.com", "r%d", "SW%d.Lab", "a-b_%d.net", "x%d.example.com."]) % rng.randint(0, 99)
        if v in want:
            continue
        state = rng.choice(["ok", "ok", "ok", "absent", "other", "fail", "no name"] + (["drop"] if slow else []))
        texts = lambda h: sorted({"A": [gen.ip4(rng) for _ in range(rng.randint(1, 4))], "AAAA": ["2001:db8::%x" % rng.randint(1, 9999) for _ in range(rng.randint(1, 3))],
                                  "TXT": ['"t%d"' % rng.randint(0, 99) for _ in range(rng.randint(1, 3))], "CNAME": ["c%d.example.com." % rng.randint(0, 99)], "PTR": ["p%d.example.com." % rng.randint(0, 9999)]}[kind])
        if state == "no name":
            v = rng.choice(["not an address", "10.0.0.256", "1.1.1.1/24"]) if reverse else rng.choice(["a..b%d" % i, "x" * 70 + ".com", ".%d.x" % i])
            if v in want:
                continue
        import dns.name
        import dns.reversename
        key = None
        if state != "no name":
            key = (dns.reversename.from_address(v).to_text() if reverse else v).rstrip(".").lower()
        for h in dnsstub.HOSTS:
            z = zones.data[h]
            if state == "ok" or (h not in use and key):
                t = list(dict.fromkeys(texts(h)))
                if h in use[1:]:
                    t = zones.data[use[0]][(key, kind)]
                rng.shuffle(t)
                z[(key, kind)] = t
            elif state == "other":
                z[(key, "MX")] = ["10 mail.example.com."]
            elif state in ("fail", "drop"):
                z[(key, kind)] = {"fail": "SERVFAIL", "drop": "DROP"}[state]
        if state == "ok":
            t = zones.data[use[0]][(key, kind)]
            want[v] = t[0].rstrip(".") if reverse else sorted(t)
            M.ev("dns_answers")
        else:
            want[v] = None
            M.ev("dns_" + state.replace(" ", "_"))
            M.ev("unchanged_form")
        values.append(v)
    args = []
    if servers:
        args.append("servers=%r" % rng.choice([",".join(servers), ", ".join(servers)]))
        M.ev("dns_servers")
    if slow:
        args.append("timeout=0.15")
    if kind not in ("A", "PTR") or (kind == "A" and rng.random() < 0.2):
        args.insert(0, rng.choice(["record=%r", "%r"]) % kind)
    if add:
        args.append("add_field='fld'")
    src = ("rdns" if reverse else "dns") + ("(%s)" % ", ".join(args) if args else "")
    M.ev("new_fields" if add else "dns_replaced")
    if add:
        chain = [(src, ("field", "fld", lambda v: want[v] if want[v] is not None else NOFIELD))]
        if rng.random() < 0.5:
            chain += [("append('!')", lambda v: v + "!")]
    else:
        chain = [(src, lambda v: want[v] if want[v] is not None else v)]
    for attempt in range(3):
        # an answer may come too late on a busy machine: only what happens every time counts
        try:
            return run(rng, M, values, chain, Ctx(rng, M), "DNS names of values")
        except vk.Violation:
            M.ev("dns_again")
            if attempt == 2:
                raise


def raising(rng, M):
    """the raise function stops parsing with its message exactly if a value gets to it"""
    marks = ["bad", "err", "x-1"]
    mark = rng.choice(marks)
    msg = rng.choice(["stop", "found a bad line", "it's wrong: 5%", "Ошибка"])
    cond = rng.choice(["contains(%r)", "notequal('good')"] ) if rng.random() < 0.8 else ""
    if "%r" in cond:
        cond = cond % mark
    vals = [rng.choice(["good", "good", "fine", "ok"] + ([mark, "a" + mark] if rng.random() < 0.5 else [])) for _ in range(rng.randint(0, 6))]
    hit = [v for v in vals if not cond or (mark in v if cond.startswith("contains") else v != "good")]
    t = '<group name="g*">\nrec {{ r }}\n state {{ s%s | raise%s }}\n</group>' % (" | " + cond if cond else "", rng.choice(['("%s")', '(message="%s")']) % msg)
    rows = []
    for i, v in enumerate(vals):
        rows += ["rec r%d" % i] + ([" other"] if rng.random() < 0.3 else []) + [" state " + v]
    try:
        res = M.parse(t, "\n".join(rows) + "\n")
    except RuntimeError as e:
        M.ev("raised")
        M.true(bool(hit) and str(e) == msg, "raise function called for %r with message %r, expected %r" % (vals, str(e), msg), template=t)
    else:
        M.ev("not_raised")
        M.true(not hit, "parsing went on after raise function", template=t, data=rows)
        M.eq(res, [[{"g": [{"r": "r%d" % i} for i in range(len(vals))]}]] if vals else [[{}]], "records without raise")
    M.case((t, tuple(rows)), nontrivial=bool(vals))


KINDS = {"names": (names, 600, 12000), "raising": (raising, 400, 6000), "chains": (chains, 12000, 500000), "numbers": (numbers, 1200, 40000), "ranges": (ranges, 1200, 40000), "times": (times, 1200, 40000), "macs": (macs, 500, 15000), "ips": (ips, 1500, 50000)}
ASSUME = ["argument text without the documented separators | and }}", "text that is not an address given to to_ip or to_net is not decided", "regular expressions held by a string variable are used as literal text only"]
