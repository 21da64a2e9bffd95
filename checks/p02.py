"""P02 - every record in the data is extracted exactly once, in order."""
import gen
from gen import NOISE

RULE = ("templates with 1-3 kinds of flat records (start line with 1-3 variables, 0-6 optional lines), data with 0-40 records of any kind with any "
        "subset and order of their optional lines, repeated lines, orphan lines with no open record of their kind, noise, blank lines, LF or CRLF; every value is a unique tag, so that each result "
        "value is traced to its record. Non-trivial: at least two records and at least one absent, repeated or out of order line or noise.")
NEED = {"records": 100913, "values_traced": 492834, "noise_lines": 62221, "repeated_lines": 8850, "orphan_lines": 9664, "crlf_texts": 1798, "big_texts": 19}


def make_kinds(rng, n):
    """n record kinds with distinct keywords"""
    pool = gen.tokens(rng, len(gen.KEYWORDS))
    many = rng.random() < 0.04
    if many:
        pool = ["opt" + w for w in gen.words(rng, 75)] + pool
        rng.shuffle(pool)
    kinds = []
    for k in range(n):
        kw = pool.pop()
        lines = []
        style = rng.choice(["indent", "indent", "flat", "mixed"])
        vi = 0
        svars = ["id"] + ["s%d" % i for i in range(rng.choice([0, 0, 1, 2]))]
        lead = rng.choice(["", "", "", " "])
        start = (lead, kw, svars, None)
        for _ in range(rng.randint(0, 6) if not many else rng.randint(8, 24)):
            ind = {"indent": lead + " ", "flat": lead, "mixed": lead + " " * rng.randint(0, 3)}[style]
            nv = rng.choice([1, 1, 1, 2, 3])
            names = ["v%d" % (vi + i) for i in range(nv)]
            vi += nv
            lines.append((ind, pool.pop(), names, rng.choice([None, None, "ORPHRASE", "PHRASE"]) if nv == 1 else None))
        kinds.append({"name": "k%d" % k, "start": start, "lines": lines})
    return kinds


def tline(line):
    ind, kw, names, pat = line
    return ind + kw + "".join(" {{ %s%s }}" % (n, " | " + pat if pat else "") for n in names)


def render(rng, line, uniq, tabs=True):
    ind, kw, names, pat = line
    vals = {}
    s = ind + kw
    for n in names:
        v = uniq()
        if pat == "PHRASE" or (pat == "ORPHRASE" and rng.random() < 0.6):
            v += " " + gen.word(rng) + (" " + uniq() if rng.random() < 0.3 else "")
        vals[n] = v
        s += (gen.blanks(rng, tabs) if rng.random() < 0.3 else " ") + v
    if rng.random() < 0.05:
        s += rng.choice([" ", "\t", "   "])
    return s, vals


def template_text(kinds, names):
    t = ""
    for k, n in zip(kinds, names):
        t += "<group%s>\n%s\n</group>\n" % (' name="%s"' % n if n else "", "\n".join(tline(x) for x in [k["start"]] + k["lines"]))
    return t


def noise_line(rng, M):
    M.ev("noise_lines")
    r = rng.random()
    if r < 0.3:
        return rng.choice(["", "", " ", "\t", "    "])
    return gen.noise(rng)


def make_data(rng, M, kinds, nrec):
    uniq = gen.Uniq(rng)
    out, exp = [], {k["name"]: [] for k in kinds}
    flags = set()

    def noise(p):
        while rng.random() < p:
            out.append(noise_line(rng, M))
            flags.add("noise")

    noise(0.4)
    # orphan lines before any record of their kind
    if rng.random() < 0.25:
        k = rng.choice(kinds)
        if k["lines"]:
            out.append(render(rng, rng.choice(k["lines"]), uniq)[0])
            M.ev("orphan_lines")
            flags.add("orphan")
    pnoise = rng.choice([0, 0.1, 0.3])
    last = None
    for r in range(nrec):
        k = rng.choice(kinds)
        s, vals = render(rng, k["start"], uniq)
        rec = dict(vals)
        out.append(s)
        noise(pnoise)
        body = [x for x in k["lines"] if rng.random() < 0.75]
        if len(body) != len(k["lines"]):
            flags.add("absent")
        if rng.random() < 0.4:
            rng.shuffle(body)
            flags.add("order")
        for x in body:
            s, vals = render(rng, x, uniq)
            out.append(s)
            rec.update(vals)
            noise(pnoise)
        # a line seen again: the first one counts
        if body and rng.random() < 0.12:
            s, _ = render(rng, rng.choice(body), uniq)
            out.append(s)
            M.ev("repeated_lines")
            flags.add("repeat")
        exp[k["name"]].append(rec)
        M.ev("records")
        M.ev("values_traced", len(rec))
        last = k
        # a line of another kind: it belongs to the latest record of its kind, unless the record has it already
        while len(kinds) > 1 and rng.random() < 0.15:
            o = rng.choice([x for x in kinds if x is not last])
            if o["lines"]:
                s, vals = render(rng, rng.choice(o["lines"]), uniq)
                out.append(s)
                M.ev("orphan_lines")
                flags.add("orphan")
                if exp[o["name"]]:
                    for n, v in vals.items():
                        exp[o["name"]][-1].setdefault(n, v)
    noise(0.3)
    return out, exp, flags


def _run(rng, M, nrec):
    kinds = make_kinds(rng, rng.choice([1, 1, 2, 2, 3]))
    lines, exp, flags = make_data(rng, M, kinds, nrec)
    crlf = rng.random() < 0.25
    if crlf:
        M.ev("crlf_texts")
    eol = "\r\n" if crlf else "\n"
    data = eol.join(lines) + rng.choice(["", eol, eol + eol])
    if not data:
        data = "!"
    anon = len(kinds) == 1 and rng.random() < 0.3
    names = [None] if anon else [k["name"] + "*" for k in kinds]
    res = M.parse(template_text(kinds, names), data)
    if anon:
        M.ev("unnamed_groups")
        got = res
        want = [[exp["k0"]]] if exp["k0"] else [[{}]]
    else:
        got = res
        want = [[{k: v for k, v in exp.items() if v}]]
    # conservation first: it names the loss
    if got != want:
        tags = repr(got)
        for recs in exp.values():
            for r in recs:
                for v in r.values():
                    M.true(repr(v)[1:-1] in tags, "value lost", lost=v, record=r, got=got)
    M.eq(got, want, "records")
    M.case((template_text(kinds, names), data), nontrivial=nrec > 1 and bool(flags))


def records(rng, M):
    _run(rng, M, rng.choice([0, 1, 2, 3, 4, 6, 10, 20, 40]))


def big(rng, M):
    M.ev("big_texts")
    _run(rng, M, rng.randint(300, 1500))


def same_text_everywhere(rng, M):
    """identical records: equal values must not merge or vanish"""
    kinds = make_kinds(rng, rng.choice([1, 2]))
    n = rng.randint(2, 12) if rng.random() < 0.98 else rng.randint(100, 1200)
    k = kinds[0]
    const = lambda kind="": "same"
    body = [x for x in k["lines"] if rng.random() < 0.8]
    rows, rec = [], {}
    for x in [k["start"]] + body:
        r2 = rng.getrandbits(16)
        s, vals = render(type(rng)(r2), (x[0], x[1], x[2], None), const)
        rows.append(s)
        rec.update(vals)
    k = dict(k, lines=[(a, b, c, None) for a, b, c, d in k["lines"]])
    data = "\n".join(rows * n)
    res = M.parse(template_text([k], ["k*"]), data)
    M.ev("records", n)
    M.eq(res, [[{"k": [rec] * n}]], "identical records")
    M.case((template_text([k], ["k*"]), data))


def overlapping(rng, M):
    """several top groups describe the same records: each extracts its own view of all of them"""
    k = make_kinds(rng, 1)[0]
    lines, exp, flags = make_data(rng, M, [k], rng.randint(1, 12))
    views = []
    for i in range(rng.randint(2, 4)):
        views.append(dict(k, name="view%d" % i, lines=[x for x in k["lines"] if rng.random() < 0.5]))
    t = template_text(views, [v["name"] + "*" for v in views])
    res = M.parse(t, "\n".join(lines))
    want = {}
    for v in views:
        fields = set(k["start"][2]) | {n for x in v["lines"] for n in x[2]}
        want[v["name"]] = [{a: b for a, b in r.items() if a in fields} for r in exp["k0"]]
        M.ev("views")
    M.eq(res, [[want]], "views of the same records")
    M.case((t, tuple(lines)))


def several_starts_lines(rng, M):
    """one variable filled by alternative lines of the group; each record has one of them"""
    kws = gen.tokens(rng, 5)
    uniq = gen.Uniq(rng)
    alts = kws[1:rng.randint(3, 5)]
    t = "<group name=\"g*\">\n%s {{ id }}\n%s\n</group>" % (kws[0], "\n".join(" %s {{ val }}" % a for a in alts))
    rows, exp = [], []
    for _ in range(rng.randint(1, 15)):
        rec = {"id": uniq()}
        rows.append("%s %s" % (kws[0], rec["id"]))
        for a in rng.sample(alts, rng.choice([0, 1, 1, 1, 2])):
            v = uniq()
            rows.append(" %s %s" % (a, v))
            rec.setdefault("val", v)
        exp.append(rec)
        M.ev("records")
        M.ev("values_traced", len(rec))
    res = M.parse(t, "\n".join(rows))
    M.eq(res, [[{"g": exp}]], "alternative lines")
    M.case((t, tuple(rows)))


KINDS = {"records": (records, 18000, 250000), "big": (big, 48, 500), "identical": (same_text_everywhere, 2000, 20000),
         "overlapping": (overlapping, 2400, 20000), "alternatives": (several_starts_lines, 1600, 10000)}
