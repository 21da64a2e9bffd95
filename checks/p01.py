"""P01 - a template line captures exactly the data lines it describes."""
import re
import string

import gen
from gen import escape

RULE = ("a random template line (indentation, literal text with punctuation/digits/blank runs, 1-4 variables or ignore placeholders with "
        "random patterns) against 4-14 data lines derived from it by matching variation and by near-miss mutation; the oracle enumerates, "
        "character by character, every way the line can be read under the documented rules. Non-trivial: at least one data line must match "
        "and at least one near miss must be refused.")
NEED = {"long_lines": 190, "values_damaged": 3181, "lines_matched": 36478, "near_misses_refused": 19417, "captures_checked": 35750, "exact_lines": 5148, "exact_space_lines": 4980}

HEX = set("0123456789abcdefABCDEF")
DIG = set("0123456789")


def p_word(s):
    return bool(s) and not any(c.isspace() for c in s)


def p_phrase(s):
    parts = s.split(" ")
    return len(parts) >= 2 and all(p_word(x) for x in parts)


def p_row(s):
    return bool(s) and " " in s and s[0] != " " and s[-1] != " " and all(c == " " or not c.isspace() for c in s)


def p_orphrase(s):
    return p_word(s) or p_phrase(s)


def p_digit(s):
    return bool(s) and set(s) <= DIG


def p_ip(s):
    o = s.split(".")
    return len(o) == 4 and all(1 <= len(x) <= 3 and set(x) <= DIG for x in o)


def p_prefix(s):
    a, sep, b = s.partition("/")
    return bool(sep) and p_ip(a) and 1 <= len(b) <= 2 and set(b) <= DIG


def p_ipv6(s):
    # one to seven pieces "hhhh:" or ":", then "hhhh", ":" or nothing
    seen = set()

    def rest(i, n):
        if (i, n) in seen:
            return False
        seen.add((i, n))
        if n >= 1:
            t = s[i:]
            if t in ("", ":") or (1 <= len(t) <= 4 and set(t) <= HEX):
                return True
        if n == 7:
            return False
        if s[i:i + 1] == ":" and rest(i + 1, n + 1):
            return True
        for k in range(1, 5):
            if set(s[i:i + k]) <= HEX and len(s[i:i + k]) == k and s[i + k:i + k + 1] == ":" and rest(i + k + 1, n + 1):
                return True
        return False

    return rest(0, 0)


def p_prefixv6(s):
    a, sep, b = s.rpartition("/")
    return bool(sep) and p_ipv6(a) and 1 <= len(b) <= 3 and set(b) <= DIG


def p_mac(s):
    if len(s) == 17:
        return all((s[i] in ":.-") if i % 3 == 2 else s[i] in HEX for i in range(17))
    if len(s) == 14:
        return all((s[i] in ":.-") if i % 5 == 4 else s[i] in HEX for i in range(14))
    return False


PATTERNS = {"WORD": p_word, "PHRASE": p_phrase, "ROW": p_row, "ORPHRASE": p_orphrase, "DIGIT": p_digit, "IP": p_ip,
            "PREFIX": p_prefix, "IPV6": p_ipv6, "PREFIXV6": p_prefixv6, "MAC": p_mac}

CUSTOM = [r"\d+", r"[a-z]+", r"\S{3}", r"up|down", r"[A-Z]\w*", r"(?:x|y)\d", r"[^,\r\n]+", r"\d{2,4}"]


def sample_value(rng, name):
    w = lambda: gen.word(rng, 1, 6, string.ascii_letters + string.digits + "._-/:")
    if name == "WORD":
        return rng.choice([w(), w(), gen.ip4(rng), "10", "a|b", "(x)", "$5", "\\n", "é" + w(), "[0]"])
    if name == "PHRASE":
        return " ".join(w() for _ in range(rng.randint(2, 4)))
    if name == "ROW":
        return "".join(w() + " " * rng.randint(1, 3) for _ in range(rng.randint(1, 3))) + w()
    if name == "ORPHRASE":
        return " ".join(w() for _ in range(rng.randint(1, 4)))
    if name == "DIGIT":
        return str(rng.choice([rng.randint(0, 99999), rng.randint(0, 99999), rng.randint(0, 10 ** rng.randint(6, 24))])).zfill(rng.choice([0, 0, 0, 12]))
    if name == "IP":
        return gen.ip4(rng)
    if name == "PREFIX":
        return gen.ip4(rng) + "/" + str(rng.randint(0, 32))
    if name in ("IPV6", "PREFIXV6"):
        h = lambda: "%x" % rng.randint(0, 65535)
        s = rng.choice([":".join(h() for _ in range(8)), h() + "::" + h(), "::1", "fe80::" + h() + ":" + h(), h() + "::", "2001:DB8::" + h()])
        return s + ("/" + str(rng.randint(0, 128)) if name == "PREFIXV6" else "")
    if name == "MAC":
        m = gen.mac(rng)
        if rng.random() < 0.3:
            h = [c for c in m if c not in ":.-"]
            k = rng.choice([2, 4])
            m = rng.choice(":.-").join("".join(h[i:i + k]) for i in range(0, 12, k))
        return m.upper() if rng.random() < 0.3 else m
    return {r"\d+": str(rng.randint(0, 9999)), r"[a-z]+": gen.word(rng), r"\S{3}": gen.word(rng, 3, 3), r"up|down": rng.choice(["up", "down"]),
            r"[A-Z]\w*": rng.choice("ABC") + gen.word(rng, 0, 4), r"(?:x|y)\d": rng.choice(["x1", "y9"]), r"[^,\r\n]+": gen.word(rng) + " " + gen.word(rng),
            r"\d{2,4}": str(rng.randint(10, 9999))}[name]


def pred(name):
    return PATTERNS[name] if name in PATTERNS else (lambda s, r=re.compile(name): r.fullmatch(s) is not None and "\n" not in s)


LITS = string.ascii_letters * 2 + string.digits * 2 + "!\"#$%&'()*+,-./:;<=>?@[\\]^_`~|" + "{}" + "éßЖ中"


def literal(rng):
    """a literal chunk without blanks"""
    r = rng.random()
    if r < 0.45:
        s = rng.choice(gen.WORDS)
    elif r < 0.6:
        s = rng.choice(gen.KEYWORDS) + str(rng.randint(0, 99)) + rng.choice(["", "/", "/0", ":", ".1"])
    elif r < 0.7:
        s = str(rng.randint(0, 4000))
    else:
        s = "".join(rng.choice(LITS) for _ in range(rng.randint(1, 5)))
    s = re.sub(r"[{}]{2,}", "{", s)
    return s


def make_template(rng):
    """tokens: ('lit', text) ('sp', text) ('var', name, [patterns], decl) ('ign', pattern, decl)"""
    toks = []
    nvar = rng.choice([1, 1, 2, 2, 3, 4])
    names = gen.words(rng, nvar)
    for i in range(nvar):
        if rng.random() < 0.12:
            # longer tail, distinct after sanitizing
            names[i] = rng.choice(["%s-%d", "%s.x%d", "%s_%d", "%d%s"[::1] if False else "%s:%d"]) % (names[i], i)
        if rng.random() < 0.05:
            names[i] = str(rng.randint(0, 9)) + names[i]
    vi = 0
    parts = rng.randint(nvar, nvar + 3)
    slots = sorted(rng.sample(range(parts), nvar))
    varsdef = {}
    for k in range(parts):
        if toks:
            if rng.random() < 0.85:
                toks.append(("sp", gen.blanks(rng)))
        if k in slots:
            if rng.random() < 0.15 and vi > 0:
                pat = rng.choice([None, None, "PHRASE", "DIGIT", "IP", r"\d+", "WORD"])
                toks.append(("ign", pat or "WORD", "ignore" if pat is None else "ignore(%r)" % pat))
            else:
                name = names[vi]
                r = rng.random()
                if r < 0.35:
                    pats, decl = ["WORD"], name
                elif r < 0.7:
                    p = rng.choice(list(PATTERNS))
                    pats, decl = [p], "%s | %s" % (name, p)
                elif r < 0.85:
                    p = rng.choice([c for c in CUSTOM if "|" not in c])
                    if rng.random() < 0.3:
                        v = "re_" + gen.word(rng, 3, 5)
                        varsdef[v] = p
                        pats, decl = [p], "%s | re(%r)" % (name, v)
                    else:
                        pats, decl = [p], "%s | re(\"%s\")" % (name, p)
                else:
                    ps = rng.sample(list(PATTERNS), 2)
                    pats, decl = ps, "%s | %s | %s" % (name, ps[0], ps[1])
                toks.append(("var", name, pats, decl))
            vi += 1
        else:
            toks.append(("lit", literal(rng)))
    if not any(t[0] == "var" for t in toks):
        toks.append(("sp", " "))
        toks.append(("var", "zz", ["WORD"], "zz"))
    # no two variables may touch a '{' or '}' literal, and merge neighbours
    out = []
    for t in toks:
        if t[0] == "lit" and out and out[-1][0] == "lit":
            out[-1] = ("lit", out[-1][1] + t[1])
        else:
            out.append(t)
    for i, t in enumerate(out):
        if t[0] == "lit":
            s = re.sub(r"[{}]{2,}", "{", t[1])
            if (i and out[i - 1][0] in ("var", "ign")) or (i + 1 < len(out) and out[i + 1][0] in ("var", "ign")):
                s = s.replace("{", "(").replace("}", ")")
            out[i] = ("lit", s or "q")
    # a line must not look like a comment
    if out[0][0] == "lit" and out[0][1].startswith("##"):
        out[0] = ("lit", "x" + out[0][1])
    return out, varsdef


def render_template(rng, toks, indent, mark):
    s = indent
    for t in toks:
        if t[0] in ("lit", "sp"):
            s += t[1]
        else:
            decl = t[-1]
            s += rng.choice(["{{ %s }}", "{{ %s }}", "{{%s}}", "{{  %s  }}"]) % decl
    if mark:
        # the marker goes inside the first variable's braces
        i = s.index("}}")
        s = s[:i].rstrip() + " | " + mark + " " + s[i:]
    return s


def lit_pieces(text, exact_digits):
    """split literal text into characters and digit runs"""
    out = []
    i = 0
    while i < len(text):
        if not exact_digits and text[i] in DIG:
            j = i
            while j < len(text) and text[j] in DIG:
                j += 1
            out.append("\0D")
            i = j
        else:
            out.append(text[i])
            i += 1
    return out


def readings(toks, indent, line, exact, exact_space, limit=4000):
    """every assignment of captured values under which the line reads as the template line"""
    if not line.startswith(indent):
        return set()
    # flatten; neighbouring literal/blank text is one string so that digit and blank runs join
    items = []
    buf = ""
    for t in toks:
        if t[0] in ("lit", "sp"):
            buf += t[1]
        else:
            if buf:
                items.append(buf)
                buf = ""
            items.append(t)
    if buf:
        items.append(buf.rstrip(" \t"))  # blanks at the end of a template line mean nothing
        if not items[-1]:
            items.pop()
    seq = []
    for it in items:
        if isinstance(it, str):
            i = 0
            while i < len(it):
                if it[i] in " \t" and not exact_space:
                    while i < len(it) and it[i] in " \t":
                        i += 1
                    seq.append("\0B")
                elif it[i] in DIG and not exact:
                    while i < len(it) and it[i] in DIG:
                        i += 1
                    seq.append("\0D")
                else:
                    seq.append(it[i])
                    i += 1
        else:
            seq.append(it)
    n = len(line)
    memo = {}
    work = [0]

    def go(k, pos):
        key = (k, pos)
        if key in memo:
            return memo[key]
        work[0] += 1
        if work[0] > limit * 10:
            raise OverflowError
        res = set()
        if k == len(seq):
            if line[pos:].strip(" \t") == "":
                res.add(())
        else:
            it = seq[k]
            if it == "\0B" or it == "\0D":
                j = pos
                ok = " \t" if it == "\0B" else DIG
                while j < n and line[j] in ok:
                    j += 1
                    res |= go(k + 1, j)
            elif isinstance(it, str):
                if pos < n and line[pos] == it:
                    res |= go(k + 1, pos + 1)
            else:
                preds = [pred(p) for p in (it[2] if it[0] == "var" else [it[1]])]
                for j in range(pos + 1, n + 1):
                    s = line[pos:j]
                    if any(p(s) for p in preds):
                        for r in go(k + 1, j):
                            res.add(((it[1], s),) + r if it[0] == "var" else r)
                if len(res) > limit:
                    raise OverflowError
        memo[key] = res
        return res

    return go(0, len(indent))


def good_line(rng, toks, indent, exact, exact_space, vary=True):
    s = indent
    for i, t in enumerate(toks):
        if t[0] == "lit":
            s += "".join(str(rng.randint(0, 10 ** rng.randint(1, 5))) if p == "\0D" and vary else p for p in lit_pieces(t[1], exact or not vary))
        elif t[0] == "sp":
            s += t[1] if exact_space or not vary else gen.blanks(rng)
        else:
            s += sample_value(rng, rng.choice(t[2]) if t[0] == "var" else t[1])
    return s


def mutate(rng, line, indent):
    """a small edit of a matching line"""
    r = rng.randrange(13)
    if not line.strip():
        return "zz"
    i = rng.randrange(len(line))
    if r == 0:
        return " " + line
    if r == 1:
        return line[1:]
    if r == 2:
        return line[:i] + line[i + 1:]
    if r == 3:
        return line[:i] + rng.choice("xX0 .-é\t") + line[i:]
    if r == 4:
        return line[:i] + rng.choice("aZ9._ /") + line[i + 1:]
    if r == 5:
        return line + " " + gen.word(rng)
    if r == 6:
        return "x" + line
    if r == 7:
        return line.swapcase()
    if r == 8:
        p = [k for k, c in enumerate(line) if not c.isalnum() and c not in " \t"]
        if p:
            k = rng.choice(p)
            return line[:k] + rng.choice("ax1") + line[k + 1:]
    if r == 9:
        p = [k for k, c in enumerate(line) if c in " \t"]
        if p:
            k = rng.choice(p)
            return line[:k] + line[k + 1:]
    if r == 10:
        p = [k for k, c in enumerate(line) if c in " \t"]
        if p:
            k = rng.choice(p)
            return line[:k] + rng.choice([" ", "\t", "  "]) + line[k:]
    if r == 11:
        p = [k for k, c in enumerate(line) if c.isdigit()]
        if p:
            k = rng.choice(p)
            return line[:k] + rng.choice(["7", "77", "x"]) + line[k + 1:]
    if r == 12:
        return indent + "\t" + line[len(indent):]
    return line + "!"


BAD = set("\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029")


def one_line(rng, M):
    toks, varsdef = make_template(rng)
    indent = rng.choice(["", "", "", " ", "  ", "   ", "\t", " \t"])
    mark = rng.choice([None] * 6 + ["_exact_", "_exact_space_"])
    exact, exact_space = mark == "_exact_", mark == "_exact_space_"
    line = render_template(rng, toks, indent, mark)
    if mark == "_exact_space_" and any(c.isdigit() for t in toks if t[0] in ("lit",) for c in t[1]):
        exact = None  # digits of a space-exact line are kept as written in the cases
    data_lines = []
    for _ in range(rng.randint(4, 14)):
        g = good_line(rng, toks, indent, exact is not False, exact_space, vary=True)
        if rng.random() < 0.3:
            g += rng.choice([" ", "\t", "  \t "])
        if rng.random() < 0.5:
            g = mutate(rng, g, indent)
            if rng.random() < 0.2:
                g = mutate(rng, g, indent)
        if set(g) & BAD:
            continue
        if exact is None and [c for c in g] and re.findall(r"\d+", g) is None:
            continue
        data_lines.append(g)
    if exact is None:
        # digit generalisation is not decided for space-exact lines: keep lines on which both readings agree
        data_lines = [g for g in data_lines if _safe(toks, indent, g, True) == _safe(toks, indent, g, False)]
        exact = True
    expected = []
    refused = 0
    try:
        for g in data_lines:
            rs = readings(toks, indent, g, exact, exact_space)
            if rs:
                expected.append((g, rs))
            else:
                refused += 1
    except OverflowError:
        M.ev("oracle_skipped")
        return
    eol = rng.choice(["\n", "\n", "\n", "\r\n"])
    data = eol.join(data_lines or ["!"]) + rng.choice(["", eol])
    v = ""
    if varsdef:
        v = "<vars>\n" + "\n".join("%s = r%r" % (k, p) if False else "%s = %r" % (k, p) for k, p in varsdef.items()) + "\n</vars>\n"
    template = '%s<group name="g*">\n%s\n</group>' % (v, escape(line))
    res = M.parse(template, data)
    got = res[0][0].get("g", [])
    M.ev("near_misses_refused", refused)
    M.ev("lines_matched", len(expected))
    if exact and mark == "_exact_":
        M.ev("exact_lines", len(data_lines))
    if exact_space:
        M.ev("exact_space_lines", len(data_lines))
    M.true(isinstance(got, list) and len(got) == len(expected), "number of captured lines", got=got, expected=[e[0] for e in expected], line=line)
    for rec, (g, rs) in zip(got, expected):
        M.ev("captures_checked")
        M.true(any(dict(r) == rec for r in rs), "captured values are not a reading of the line", got=rec, data_line=g,
               expected=[dict(r) for r in list(rs)[:5]], line=line)
    M.case((line, tuple(data_lines)), nontrivial=bool(expected) and refused > 0)


def _safe(toks, indent, g, exact):
    try:
        return readings(toks, indent, g, exact, True)
    except OverflowError:
        return None


def multi_line(rng, M):
    """several different lines in one group: each data line is captured by the line that describes it"""
    n = rng.randint(2, 4)
    kws = gen.tokens(rng, n + 1)
    indent = " " * rng.randint(0, 2)
    tl = ["%s%s {{ name }}" % ("", kws[0])]
    decls = []
    for k in range(n):
        pat = rng.choice(list(PATTERNS))
        var = "f%d" % k
        decls.append((kws[k + 1], var, pat))
        tl.append("%s%s {{ %s | %s }}" % (indent + " ", kws[k + 1], var, pat))
    data, expected = [], []
    for r in range(rng.randint(1, 5)):
        rec = {"name": "n%d" % r}
        data.append("%s n%d" % (kws[0], r))
        for kw, var, pat in decls:
            val = sample_value(rng, rng.choice([pat, pat, rng.choice(list(PATTERNS))]))
            if rng.random() < 0.3:
                # a part of the value repeated, left out or changed
                i = rng.randrange(len(val))
                j = rng.choice([i + 1, i + 1, rng.randint(i, len(val)), min(len(val), i + 5)])
                val2 = rng.choice([val[:j] + val[i:], val[:j] + val[i:j] + val[j:], val[:i] + val[j:], val[:i] + rng.choice(":.-/,x0G") + val[j:]])
                if val2.strip() == val2 != "":
                    val = val2
                    M.ev("values_damaged")
            sp = gen.blanks(rng)
            data.append("%s%s%s%s" % (indent + " ", kw, sp, val))
            if PATTERNS[pat](val):
                rec[var] = val
                M.ev("captures_checked")
                M.ev("lines_matched")
            else:
                M.ev("near_misses_refused")
        expected.append(rec)
    res = M.parse('<group name="g*">\n%s\n</group>' % "\n".join(tl), "\n".join(data))
    M.eq(res, [[{"g": expected}]], "records of a group with typed lines")
    M.case((tuple(tl), tuple(data)))


def ignore_values(rng, M):
    """text under ignore never shows up, and is still required"""
    secret = "SECRET%d" % rng.randint(0, 10 ** 6)
    pat, good, bad = rng.choice([("ignore", secret, secret + " " + secret), ("ignore(\"PHRASE\")", secret + " b", secret), ("ignore(\"DIGIT\")", "4512987", secret),
                                 ("ignore(\"[A-Z]+\\d+\")", secret, "low"), ("ignore(\"my_pat\")", "AB", "12"),
                                 ("ignore(\"my_alt\")", rng.choice(["up", "down", "lo7"]), rng.choice(["left", "lo", "u", "updown"])), ("ignore('MAC')", rng.choice(["00:1a:22:33:44:ff", "001a.22ff.0001"]), secret),
                                 ("ignore(\"ORPHRASE\")", rng.choice([secret, secret + " b"]), secret + "  b"), ("ignore(my_alt)", "up", secret)])
    pos = rng.randrange(2)
    kw = gen.tokens(rng, 2)
    line = "%s {{ %s }} %s {{ x }}" % (kw[0], pat, kw[1]) if pos else "%s {{ x }} %s {{ %s }}" % (kw[0], kw[1], pat)
    mk = (lambda v, x: "%s %s %s %s" % (kw[0], v, kw[1], x)) if pos else (lambda v, x: "%s %s %s %s" % (kw[0], x, kw[1], v))
    rows, exp = [], []
    for i in range(rng.randint(1, 6)):
        ok = rng.random() < 0.6
        rows.append(mk(good if ok else bad, "x%d" % i))
        if ok:
            exp.append({"x": "x%d" % i})
            M.ev("lines_matched")
        else:
            M.ev("near_misses_refused")
    res = M.parse("<vars>\nmy_pat='[A-Z]{2}'\nmy_alt='up|down|lo\\d'\n</vars>\n<group name=\"g*\">\n%s\n</group>" % line, "\n".join(rows))
    M.eq(res[0][0].get("g", []), exp, "ignore placeholder")
    M.true(secret not in repr(res), "ignored text reported")
    M.case((line, tuple(rows)), nontrivial=bool(exp))


def long_lines(rng, M):
    """values, lines and runs of blanks of any length, lines of many variables"""
    chars = string.ascii_letters + string.digits + "._-/:,;"
    w = lambda n: "".join(rng.choice(chars) for _ in range(n))  # noqa: E731
    size = lambda: rng.choice([1, 40, 300, 1700, 5000, 12000])  # noqa: E731
    kws = gen.tokens(rng, 20)
    rows, exp = [], []
    form = rng.choice(["value", "value", "many"])
    indent = " " * rng.choice([0, 1, 8, 40, 200])
    if form == "value":
        pat = rng.choice(["WORD", "PHRASE", "ROW", "ORPHRASE", "DIGIT", "_line_", "re(\".+\")", "re(\"[^<\\r\\n]+\")"])
        first = pat == "WORD" and rng.random() < 0.5
        close = " %s {{ z }}" % kws[1] if rng.random() < 0.5 and pat not in ("_line_", "re(\".+\")") else ""
        t = "%s%s {{ x | %s }}%s" % (indent, kws[0], pat, close)
        for i in range(rng.randint(1, 3)):
            n = size()
            if pat == "DIGIT":
                v = "".join(rng.choice(string.digits) for _ in range(n))
            elif pat == "WORD" or pat == "ORPHRASE" and first:
                v = w(n)
            else:
                v = " ".join(w(rng.randint(1, 8)) for _ in range(max(2, n // 5)))
            r = {"x": v}
            ln = indent + kws[0] + " " * rng.choice([1, 1, 3, 400]) + v
            if pat == "ROW":
                # blanks are part of the value of a row
                ln = indent + kws[0] + " " + v
            if close:
                r["z"] = "z%d" % i
                ln += " " * rng.choice([1, 1, 2, 500] if pat != "re(\"[^<\\r\\n]+\")" else [1]) + kws[1] + " z%d" % i
            elif pat not in ("_line_", "re(\".+\")", "re(\"[^<\\r\\n]+\")"):
                ln += " " * rng.choice([0, 0, 1, 300])
            rows.append(ln)
            exp.append(r)
            if pat == "_line_":
                break
        if pat == "_line_":
            # takes all the lines of the kind
            t = "%s%s {{ x | _line_ }}" % (indent, kws[0])
    else:
        n = rng.randint(8, 40)
        names = gen.words(rng, n)
        t = indent + " ".join(("%s " % rng.choice(kws) if rng.random() < 0.3 else "") + "{{ %s }}" % k for k in names)
        for i in range(rng.randint(1, 3)):
            r = {k: w(rng.randint(1, 30)) for k in names}
            ln = t
            for k in names:
                ln = ln.replace("{{ %s }}" % k, r[k])
            rows.append(ln)
            exp.append(r)
    M.ev("long_lines", sum(len(r) > 1000 for r in rows))
    M.ev("captures_checked", len(exp))
    res = M.parse('<group name="g*">\n%s\n</group>' % escape(t), "\n".join(rows) + rng.choice(["", "\n"]))
    M.eq(res, [[{"g": exp}]], "long lines")
    M.case((t, tuple(rows)), sample={"template": t[:300]})


KINDS = {"long_lines": (long_lines, 800, 8000), "one_line": (one_line, 12000, 120000), "multi_line": (multi_line, 3000, 20000), "ignore": (ignore_values, 1600, 8000)}
