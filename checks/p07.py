"""P07 - explicit start, end, line, join, table and header forms delimit records."""
import gen

RULE = ("templates with several start lines, end lines in any place, whole-line variables with conditions, joined variables (strings, lists, numbers, several variables per line, values after "
        "children), table-type groups and headers lines with every number of mandatory columns; data generated record by record with decoy lines after the end lines. "
        "Non-trivial: the case had at least two records and an event specific to its form (decoy after an end, collected line, joined value, table row).")
NEED = {"separate_start": 275, "table_end": 432, "line_starts": 3330, "start_lines": 8668, "after_end_decoys": 17153, "line_collected": 5473, "header_long_cells": 1296, "line_rejected": 2971, "line_taken_by_other": 3884,
        "joined": 19421, "join_lists": 5061, "join_mixed": 2757, "join_after_child": 3772, "table_rows": 8912, "header_rows": 7473, "header_rows_rejected": 1171, "header_empty_cells": 3842, "blank_lines": 3659}


def starts(rng, M):
    """several start lines, end lines, decoys after the end"""
    uniq, names, kws = gen.Uniq(rng), gen.words(rng, 30), gen.words(rng, 60)
    kws = [k for k in kws if k not in names]
    nstart = rng.choice([1, 2, 2, 3, 4]) if rng.random() < 0.96 else rng.randint(5, 8)
    sl = []          # (keyword, var or None, shared name)
    shared = names.pop()
    for i in range(nstart):
        v = rng.choice([shared, shared, names.pop(), None])
        sl.append((kws.pop(), v))
    nend = rng.choice([0, 1, 1, 1, 2]) if rng.random() < 0.96 else rng.randint(3, 7)
    ends = [rng.choice(["!", "%s" % kws.pop(), "end-%s" % kws.pop(), "--- %s" % kws.pop()]) + str(i) * i for i in range(nend)]
    inner = [(kws.pop(), names.pop()) for _ in range(rng.randint(1, 4))]
    child = rng.random() < 0.4
    ck, cn, cik, cin = kws.pop(), names.pop(), kws.pop(), names.pop()
    cend = rng.choice([None, "  endchild"])
    lines = []
    for i, (k, v) in enumerate(sl):
        ind = "_start_"
        if v is None:
            lines.append("%s mark {{ _start_ }}" % k)
        elif i == 0:
            lines.append("%s {{ %s }}" % (k, v) if rng.random() < 0.7 else "%s {{ %s | _start_ }}" % (k, v))
        else:
            lines.append("%s {{ %s | _start_ }}" % (k, v))
    # the first line of a group is a start line, the others go in any order
    rest = [" %s {{ %s }}" % x for x in inner] + [e + rng.choice([" {{ _end_ }}", "{{ _end_ }}"]) for e in ends]
    if child:
        c = '<group name="c*">\n  %s {{ %s }}\n   %s {{ %s }}\n%s</group>' % (ck, cn, cik, cin, cend + "{{ _end_ }}\n" if cend else "")
        rest.append(c)
    rng.shuffle(rest)
    # start lines written below a nested group belong to the tail, they are not decided here
    top = next((i for i, x in enumerate(rest) if x.startswith("<group")), len(rest))
    for x in lines[1:]:
        rest.insert(rng.randint(0, top), x)
        top += 1
    t = '<group name="g*">\n%s\n%s\n</group>' % (lines[0], "\n".join(rest))
    rows, exp = [], []

    def inner_line(rec, kv):
        val = uniq()
        rows.append(" %s %s" % (kv[0], val))
        if rec is not None:
            rec.setdefault(kv[1], val)

    def child_rec(rec):
        cr = {cn: uniq()}
        rows.append("  %s %s" % (ck, cr[cn]))
        if rng.random() < 0.6:
            cr[cin] = uniq()
            rows.append("   %s %s" % (cik, cr[cin]))
        if cend and rng.random() < 0.5:
            rows.append(cend)
            if rng.random() < 0.6:
                rows.append("   %s %s" % (cik, uniq()))
                M.ev("after_end_decoys")
        if rec is not None:
            rec.setdefault("c", []).append(cr)

    def decoys():
        for _ in range(rng.randint(0, 3)):
            if child and rng.random() < 0.4:
                child_rec(None)
            else:
                inner_line(None, rng.choice(inner))
            M.ev("after_end_decoys")
    decoys()
    M.events.pop("after_end_decoys", None)
    for _ in range(rng.randint(2, 7)):
        k, v = rng.choice(sl)
        rec = {}
        if v is None:
            rows.append("%s mark" % k)
        else:
            rec[v] = uniq()
            rows.append("%s %s" % (k, rec[v]))
        M.ev("start_lines")
        todo = [x for x in inner if rng.random() < 0.7]
        if v is None and not todo:
            todo = [rng.choice(inner)]
        rng.shuffle(todo)
        for x in todo:
            inner_line(rec, x)
            if rng.random() < 0.1:
                inner_line(rec, x)
        if child:
            for _ in range(rng.choice([0, 1, 2])):
                child_rec(rec)
        exp.append(rec)
        if ends and rng.random() < 0.7:
            rows.append(rng.choice(ends))
            decoys()
            if rng.random() < 0.3:
                rows.append(rng.choice(ends))
                decoys()
        if rng.random() < 0.3:
            rows.append("~ noise")
    res = M.parse(t, "\n".join(rows))
    M.eq(res, [[{"g": exp}]], "records of several start lines and end lines")
    M.case((t, tuple(rows)), nontrivial=len(exp) > 1)


CONDS = {"": lambda s: True, " | contains('port')": lambda s: "port" in s, " | exclude('port')": lambda s: "port" not in s, " | contains_re('[0-9]$')": lambda s: s[-1:].isdigit(),
         " | notequal('!')": lambda s: s != "!", " | contains('a', 'e')": lambda s: "a" in s or "e" in s}
TEXTS = ["switchport port-security", "switchport 5", "!", "a", "mac e", "port", "speed 1000", "x y  z", "no shutdown", "  deeper port 1", "end of", "#", "interface", "{{ x }}", "mtu\t9"]


def line(rng, M):
    """a whole-line variable collects what no other line takes"""
    uniq = gen.Uniq(rng)
    kws, names = gen.words(rng, 12), gen.words(rng, 30)
    names = [n for n in names if n not in kws]
    sep = rng.choice([None, None, ",", " ", "_+_", ""])
    lst = rng.random() < 0.2
    cond, pred = rng.choice(sorted(CONDS.items(), key=lambda x: x[0]))
    ind = rng.choice(["", "", " ", "  "])
    k0, idn, ln = kws.pop(), names.pop(), names.pop()
    inner = []
    for _ in range(rng.randint(0, 3)):
        # an inner line with a condition leaves the lines that fail it to the whole-line variable
        inner.append((kws.pop(), names.pop(), rng.choice([None, None, None, "5"])))
    end = rng.choice([None, "!end", "exit %s" % kws.pop()])
    child = rng.random() < 0.35
    ck, cn = kws.pop(), names.pop()
    jm = " | joinmatches" if sep is None else " | joinmatches('%s')" % sep
    order = [" %s {{ %s%s }}" % (k, n, " | contains('%s')" % c if c else "") for k, n, c in inner]
    order.append("%s{{ %s | _line_%s%s%s }}" % (ind, ln, cond, " | to_list" if lst else "", jm))
    if end:
        order.append("%s {{ _end_ }}" % end)
    if child:
        order.append('<group name="c*">\n  %s {{ %s }}\n</group>' % (ck, cn))
    rng.shuffle(order)
    t = '<group name="g*">\n%s {{ %s }}\n%s\n</group>' % (k0, idn, "\n".join(order))
    rows, exp = [], []

    def text():
        s = rng.choice(TEXTS) + rng.choice(["", "", " " + uniq("port"), " " + uniq("e"), " 7"])
        return rng.choice(["", " ", "  ", "   "]) + s

    for _ in range(rng.randint(0, 3)):
        rows.append(text())
    for _ in range(rng.randint(1, 5)):
        rec = {idn: uniq()}
        rows.append("%s %s" % (k0, rec[idn]))
        got = []

        def collect(s):
            if s.startswith(ind) and len(s) > len(ind):
                v = s[len(ind):]
                if pred(v):
                    got.append(v)
                    M.ev("line_collected")
                else:
                    M.ev("line_rejected")
        for _ in range(rng.randint(0, 6)):
            r = rng.random()
            if r < 0.3 and inner:
                k, n, c = rng.choice(inner)
                v = rng.choice(["5", "15", "6"]) + uniq("")
                if c is None and n in rec:
                    continue
                s = " %s %s" % (k, v)
                rows.append(s)
                if c and c not in v:
                    collect(s)
                else:
                    M.ev("line_taken_by_other")
                    if not child:
                        rec.setdefault(n, v)
                    elif n in rec:
                        # the value of a line repeated around children is not decided here
                        rows.pop()
                    else:
                        rec[n] = v
            elif r < 0.4 and child:
                v = uniq()
                rows.append("  %s %s" % (ck, v))
                rec.setdefault("c", []).append({cn: v})
                M.ev("line_taken_by_other")
            elif r < 0.5:
                s = rng.choice(["", "", "   "])
                rows.append(s)
                M.ev("blank_lines")
                if s:
                    collect(s)
            else:
                s = text()
                rows.append(s)
                collect(s)
        if got:
            rec[ln] = got if lst else ("\n" if sep is None else sep).join(got)
        exp.append(rec)
        if end and rng.random() < 0.8:
            rows.append(end)
            for _ in range(rng.randint(0, 3)):
                rows.append(text())
                M.ev("after_end_decoys")
    res = M.parse(t, "\n".join(rows) + "\n")
    M.eq(res, [[{"g": exp}]], "lines collected by a whole-line variable")
    M.case((t, tuple(rows)), nontrivial=len(exp) > 1)


def join(rng, M):
    """joined values accumulate in data order"""
    uniq = gen.Uniq(rng)
    kws, names = gen.words(rng, 14), gen.words(rng, 30)
    names = [n for n in names if n not in kws]
    k0, idn = kws.pop(), names.pop()
    sep = rng.choice([None, ",", " ", "; ", "", "::"])
    jm = "joinmatches" if sep is None else "joinmatches(%r)" % sep
    ch = "\n" if sep is None else sep
    lines, text = [], []
    for _ in range(rng.randint(1, 3)):
        k = kws.pop()
        vs = []
        form = rng.choice(["str", "str", "list", "int", "mixed"])
        n2 = rng.choice([1, 1, 2]) if form in ("str", "list") else 1
        for _ in range(n2):
            vs.append(names.pop())
        fn = {"str": "", "list": " | to_list", "int": " | to_int", "mixed": " | to_int"}[form]
        lines.append((k, vs, form))
        text.append(" " + k + "".join(" {{ %s%s | %s }}" % (v, fn, jm) for v in vs) + (" {{ ignore }}" if rng.random() < 0.2 else ""))
    ign = [s.endswith("{{ ignore }}") for s in text]
    # another line feeding the same variable
    if rng.random() < 0.35:
        k, vs, form = lines[0]
        f2 = rng.choice(["str", "list"])
        k2 = kws.pop()
        lines.append((k2, vs, f2))
        ign.append(False)
        text.append(" " + k2 + "".join(" {{ %s%s | %s }}" % (v, " | to_list" if f2 == "list" else "", jm) for v in vs))
    child = rng.random() < 0.5
    ck, cn, cjk, cjn = kws.pop(), names.pop(), kws.pop(), names.pop()
    dflt = rng.random() < 0.2
    if dflt:
        text[0] = text[0].replace(" | " + jm, " | %s | default('none')" % jm, 1)
    body = text[:]
    if child:
        body.insert(rng.randint(0, len(body)), '<group name="c*">\n  %s {{ %s }}\n   %s {{ %s | %s }}\n</group>' % (ck, cn, cjk, cjn, jm))
    t = '<group name="g*">\n%s {{ %s }}\n%s\n</group>' % (k0, idn, "\n".join(body))
    rows, exp = [], []
    for _ in range(rng.randint(1, 5)):
        rec = {idn: uniq()}
        rows.append("%s %s" % (k0, rec[idn]))
        acc = {}
        seen_child = False
        w = uniq()
        for _ in range(rng.randint(0, 8) if rng.random() < 0.98 else rng.randint(40, 150)):
            if child and rng.random() < 0.3:
                cr = {cn: uniq()}
                rows.append("  %s %s" % (ck, cr[cn]))
                vals = [uniq() for _ in range(rng.choice([0, 1, 2]))]
                rows += ["   %s %s" % (cjk, v) for v in vals]
                if vals:
                    cr[cjn] = ch.join(vals)
                rec.setdefault("c", []).append(cr)
                seen_child = True
                continue
            i = rng.randrange(len(lines))
            k, vs, form = lines[i]
            row = [k]
            for v in vs:
                if form == "int":
                    w = str(rng.randint(0, 500))
                    val = int(w)
                elif form == "mixed":
                    w = rng.choice([str(rng.randint(0, 500)), uniq("t")])
                    val = int(w) if w.isdigit() else w
                    M.ev("join_mixed")
                else:
                    # values can be equal to each other
                    w = uniq() if rng.random() < 0.85 else w
                    val = [w] if form == "list" else w
                    if form == "list":
                        M.ev("join_lists")
                row.append(w)
                acc.setdefault(v, []).append(val)
                M.ev("joined")
                if seen_child:
                    M.ev("join_after_child")
            if ign[i]:
                row.append(uniq("i"))
            rows.append(" " + " ".join(row))
        for v, vals in acc.items():
            # values are joined one after another: strings to a string, anything else into one list
            out = vals[0]
            for x in vals[1:]:
                if isinstance(out, str) and isinstance(x, str):
                    out = out + ch + x
                else:
                    out = (out if isinstance(out, list) else [out]) + (x if isinstance(x, list) else [x])
            rec[v] = out
        if dflt:
            rec.setdefault(lines[0][1][0], "none")
        exp.append(rec)
    res = M.parse(t, "\n".join(rows))
    M.eq(res, [[{"g": exp}]], "joined matches")
    M.case((t, tuple(rows)), nontrivial=len(exp) > 1)


def table(rng, M):
    """every line of a table-type group is a start line"""
    uniq = gen.Uniq(rng)
    kws, names = gen.words(rng, 14), gen.words(rng, 30)
    names = [n for n in names if n not in kws]
    lines, text, dflt = [], [], {}
    for _ in range(rng.randint(1, 5) if rng.random() < 0.95 else rng.randint(6, 8)):
        k = kws.pop()
        vs = [(rng.choice([names[0], names.pop()]))] + [names.pop() for _ in range(rng.choice([0, 1, 2]))]
        sets, cond = {}, None
        s = k
        for i, v in enumerate(vs):
            f = ""
            if i == 0 and rng.random() < 0.3:
                cond = rng.choice(["5", "1"])
                f = " | contains('%s')" % cond
            s += " {{ %s%s }}" % (v, f)
        lines.append((k, vs, cond))
        text.append(s)
    if rng.random() < 0.3:
        n = names.pop()
        dflt[n] = uniq("s")
        text.insert(rng.randint(1, len(text)), "{{ %s | set('%s') }}" % (n, dflt[n]))
    end = None
    if rng.random() < 0.25:
        end = "total"
        text.insert(rng.randint(1, len(text)), "total {{ _end_ }}")
    t = '<group name="g*" method="table">\n%s\n</group>' % "\n".join(text)
    rows, exp = [], []
    for _ in range(rng.randint(2, 12)):
        k, vs, cond = rng.choice(lines)
        vals = [uniq() for _ in vs]
        rows.append(" ".join([k] + vals) + rng.choice(["", "", "  "]))
        M.ev("table_rows")
        if cond is None or cond in vals[0]:
            exp.append(dict(dflt, **dict(zip(vs, vals))))
        if rng.random() < 0.2:
            rows.append(gen.noise(rng))
        if end and rng.random() < 0.2:
            rows.append(end)
            M.ev("table_end")
        if rng.random() < 0.1:
            # a line that only begins or ends like a row
            rows.append(rng.choice(["x" + k + " " + " ".join(vals), " ".join([k] + vals + ["extra"] * 4), " " + k + " " + " ".join(vals), k]))
    res = M.parse(t, "\n".join(rows))
    M.eq(res, [[{"g": exp} if exp else {}]], "rows of a table-type group")
    M.case((t, tuple(rows)), nontrivial=len(exp) > 1)


CELLS = ["Gi0/1", "connected", "a-full", "1000", "", "", "x", "10.0.0.1/24", "0", "two words", "65000 ?", "*>e1", "$$", "(a)", "a  b", "\u00e9t\u00e9", "{{x}}", "trunk"]


def headers(rng, M):
    n = rng.choice([1, 2, 3, 3, 4, 5, 6, 7, 8]) if rng.random() < 0.96 else rng.randint(9, 24)
    names = []
    while len(names) < n:
        w = rng.choice(["", "N", "V_", "P"]) + gen.word(rng, 2, 9)
        if w not in names and w not in gen.RESERVED and not w.endswith("_"):
            names.append(w)
    widths = [len(h) + rng.randint(1, 12) for h in names]
    indent = rng.choice([0, 0, 0, 1, 3])
    head = " " * indent + "".join(h.ljust(w) for h, w in zip(names, widths)).rstrip()
    slots = [widths[0] + indent] + widths[1:]
    columns = rng.choice([None, None, rng.randint(1, n), rng.randint(1, n)])
    c = max(1, n - 2) if columns is None else columns
    ind = "_headers_" if columns is None else "_headers_ | columns(%d)" % columns
    fn = ""
    t = '<group name="g*">\n%s   {{ %s }}\n</group>' % (head, ind)
    rows, exp = [head + rng.choice(["", "  "])], []
    for _ in range(rng.randint(1, 8)):
        row = ""
        for i, w in enumerate(slots):
            room = w - (1 if i < n - 1 else 0)
            cell = rng.choice(CELLS)
            if rng.random() < 0.3:
                cell = rng.choice(CELLS) + rng.choice(names) + "x"
            if i == n - 1:
                row += cell
                if rng.random() < 0.15:
                    row += rng.choice([" ", "", "-"]) + gen.word(rng, 8, 20) * rng.randint(1, 12)
                    M.ev("header_long_cells")
                continue
            cell = cell[:room if rng.random() < 0.8 else w]
            row += (cell.ljust(w) if rng.random() < 0.9 else cell.rjust(w))
        r = rng.random()
        if r < 0.35:
            row = row[:rng.randint(0, len(row))]
        row = row.rstrip() if rng.random() < 0.7 else row
        cells, pos = [], 0
        for i, w in enumerate(slots):
            cells.append((row[pos:pos + w] if i < n - 1 else row[pos:]).strip())
            pos += w
        if any(x == h for x, h in zip(cells, names)):
            continue
        rows.append(row)
        if len(row) >= sum(slots[:c - 1]) + 1:
            exp.append(dict(zip(names, cells)))
            M.ev("header_rows")
            M.ev("header_empty_cells", sum(1 for x in cells if x == ""))
        else:
            M.ev("header_rows_rejected")
    res = M.parse(t, "\n".join(rows) + "\n")
    M.eq(res, [[{"g": exp} if exp else {}]], "rows split at the header columns")
    M.case((t, tuple(rows)), nontrivial=len(exp) > 1)


def line_start(rng, M):
    """records started by a whole line that passes a condition, ended by any of several end lines"""
    uniq = gen.Uniq(rng)
    kws, names = gen.words(rng, 14), gen.words(rng, 30)
    kws, word, idn = [k for k in kws if k not in names], "Obj", names.pop()
    inner = [(kws.pop(), names.pop()) for _ in range(rng.randint(1, 3))]
    ends = [rng.choice(["!", "end-%s" % kws.pop(), "finish %s" % kws.pop()]) + "x" * i for i in range(rng.choice([1, 2, 2, 3]))]
    cond = rng.choice(['contains("%s")' % word, 'contains_re("^%s")' % word, 'startswith_re("%s")' % word])
    rest = [" %s {{ %s }}" % x for x in inner] + ["%s {{ _end_ }}" % e for e in ends]
    rng.shuffle(rest)
    first = "{{ %s | _line_ | %s | _start_ }}" % (idn, cond)
    if rng.random() < 0.3:
        first = rng.choice(["{{ %s | _line_ | %s }} {{ _start_ }}", "{{ %s | _line_ | %s }}{{ _start_ }}"]) % (idn, cond)
        M.ev("separate_start")
    t = '<group name="g*">\n%s\n%s\n</group>' % (first, "\n".join(rest))
    rows, exp, n = [], [], rng.randint(1, 6)
    for i in range(n):
        rec = {idn: rng.choice(["%s %s", "%s  %s up", "%s: %s 10"]) % (word, uniq())}
        rows.append(rec[idn])
        M.ev("line_starts")
        for k, v in rng.sample(inner, len(inner)):
            if rng.random() < 0.75:
                rec[v] = uniq()
                rows.append(" %s %s" % (k, rec[v]))
        exp.append(rec)
        # the last record is always closed: what follows the last end line is not searched
        if i == n - 1 or rng.random() < 0.6:
            rows.append(rng.choice(ends) if rng.random() < 0.9 or i == n - 1 else "noise %s" % uniq())
            for _ in range(rng.randint(0, 2)):
                rows.append(" %s %s" % (rng.choice(inner)[0], uniq()))
                M.ev("after_end_decoys")
    res = M.parse(t, "\n".join(rows) + "\n")
    M.eq(res, [[{"g": exp}]], "records started by a whole line")
    M.case((t, tuple(rows)), nontrivial=n > 1)


KINDS = {"starts": (starts, 4800, 50000), "line": (line, 4800, 50000), "join": (join, 4000, 40000), "table": (table, 3200, 25000), "headers": (headers, 4800, 50000),
         "line_start": (line_start, 2400, 25000)}
