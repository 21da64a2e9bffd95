"""P10 - lookups return the table entry for the value and nothing else."""
import configparser
import copy
import csv
import fnmatch
import io
import json

import gen
import vk

RULE = ("generated tables (text keys with near-misses of each other, entries that are text, numbers, lists, nested dictionaries) given as python, YAML, JSON, INI or CSV text in a tag, in an included file or through "
        "add_lookup, at dotted depth 0-4, looked up by every record of generated inputs with the exact, reverse-substring and glob-pattern match functions and the group function, found entries further modified by functions "
        "that follow; lookups in results of groups and templates parsed before; the same parser used for a second input and a second parse. The reference looks the value up in the generated table. "
        "Non-trivial: at least one value found and one not found.")
NEED = {"leaf_path": 100, "geo": 1384, "geo_found": 386, "geo_not_loaded": 60, "geo_no_database": 40, "split_table": 296, "several_sources": 236, "exact": 17664, "exact_found": 9146, "exact_missing": 8518, "rlookup": 11130,
        "rlookup_found": 7571, "rlookup_ambiguous": 4926, "gpv": 9003, "gpv_found": 2671, "gpv_multi": 262, "group_lookup": 12126, "group_found": 4550, "group_update": 468, "group_replace": 2272, "group_add": 3464,
        "group_key_missing": 3345, "src_tag": 2737, "src_include": 2428, "src_api": 2812, "ld_python": 1391, "ld_yaml": 2262, "ld_json": 2164, "ld_ini": 1071, "ld_csv": 1054, "csv_key": 211, "modified_after": 3710, "bad_path":
        351, "results_group": 584, "results_template": 586, "recorded": 184, "second_parse": 4286}

STEMS = ["65100", "65101", "core", "edge", "Gi0/1", "vlan", "10.0.0.1", "10.0.0.0/24", "-mel-", "-bri-", "a", "A", "ab", "x=y", "host one", "ñandú", "日本", "007", "7", "true", "1.5", "#1", "q'q", "up", "Up", "fe80::1"]


def key_text(rng):
    k = rng.choice(STEMS)
    if rng.random() < 0.5:
        k += rng.choice(["", "-", ".", "_", " ", "/"]) + str(rng.randint(0, 12))
    return k


def keyset(rng, n):
    out = []
    while len(out) < n:
        k = key_text(rng)
        if rng.random() < 0.3 and out:
            k = rng.choice(out) + rng.choice(["1", "x", ".0", "-b"])
        if k not in out:
            out.append(k)
    return out


TEXTS = ["Private ASN", "x", "7 Name St, Suburb A", "a \"quoted\" text", "it's", "50", "ünï", "yes", "null", "a: b", "a;b", "back\\slash", "<tag> & more", "-", "[x]", "{y}"]


def entry(rng, depth=0):
    r = rng.random()
    if r < 0.45:
        return rng.choice(TEXTS) + rng.choice(["", " %d" % rng.randint(0, 99)])
    if r < 0.6:
        return rng.choice([0, 7, -3, 1.5, True, rng.randint(0, 10 ** 9)])
    if r < 0.75 or depth > 1:
        return [rng.choice(TEXTS) for _ in range(rng.randint(1, 3))]
    return {k: entry(rng, depth + 1) for k in ["as_name", "info", "num"][: rng.randint(1, 3)]}


def write_table(rng, data, loader, key=None):
    """text of the table in the format"""
    if loader == "python":
        if all(k.isidentifier() and k.isascii() for k in data) and rng.random() < 0.6 and not any(k in gen.RESERVED for k in data):
            return "".join("%s = %r\n" % (k, v) for k, v in data.items())
        return rng.choice([repr(data), "{\n" + "".join("%r: %r,\n" % kv for kv in data.items()) + "}"])
    if loader == "json":
        return json.dumps(data, indent=rng.choice([None, 2]), ensure_ascii=rng.random() < 0.5)
    if loader == "yaml":
        import yaml
        return yaml.safe_dump(data, default_flow_style=rng.choice([False, False, None]), allow_unicode=True, sort_keys=False)
    if loader == "ini":
        out = ""
        for s, kv in data.items():
            out += "[%s]\n" % s + "".join("%s %s %s\n" % (k, rng.choice([":", "="]), v) for k, v in kv.items())
        return out
    if loader == "csv":
        cols = []
        for row in data.values():
            cols += [c for c in row if c not in cols]
        head = [key] + cols
        order = head[:]
        if rng.random() < 0.5:
            rng.shuffle(order)
        f = io.StringIO()
        w = csv.writer(f, lineterminator="\n", quoting=rng.choice([csv.QUOTE_MINIMAL, csv.QUOTE_ALL]))
        w.writerow(order)
        for k, row in data.items():
            w.writerow([k if c == key else row[c] for c in order])
        return f.getvalue(), order
    raise AssertionError(loader)


def ini_ok(k):
    return ":" not in k and "=" not in k and "#" not in k[:1] and ";" not in k[:1] and "[" not in k[:1] and "%" not in k


class Table:
    """a lookup table under a name; `path` leads to the dictionary `at` used by lookups"""

    def __init__(self, rng, M, name, keys, mk=None, loader=None):
        self.name = name
        mk = mk or (lambda: entry(rng))
        self.loader = loader or rng.choice(["python", "yaml", "json", "ini", "csv"])
        self.key = None
        self.csvkey = None
        text = mk() if False else None
        if self.loader == "csv":
            cols = rng.sample(["as_name", "descr", "num of", "site"], rng.randint(1, 3))
            self.at = {k: {c: rng.choice(TEXTS + [" lead", "trail ", "", "two  blanks", "a,b", "0"]) for c in cols} for k in keys}
            self.csvkey = "KEY"
            text, order = write_table(rng, self.at, "csv", "KEY")
            if order[0] != "KEY":
                self.key = "KEY"
                M.ev("csv_key")
            elif rng.random() < 0.3:
                self.key = "KEY"
            self.path = [name]
            self.data = self.at
        elif self.loader == "ini":
            sec = [rng.choice(["cities", "s-1", "Sec Two"]), "other"]
            self.at = {k: rng.choice([t for t in TEXTS]) for k in keys if ini_ok(k)}
            self.data = {sec[0]: self.at, sec[1]: {k: "wrong" for k in list(self.at)[:2]}}
            if rng.random() < 0.5:
                self.data = dict(reversed(list(self.data.items())))
            self.path = [name, sec[0]]
            text = write_table(rng, self.data, "ini")
        else:
            self.at = {k: mk() for k in keys}
            self.data = self.at
            self.path = [name]
            inner = []
            for i in range(rng.choice([0, 0, 1, 1, 2, 3])):
                n = "lv%d%s" % (i, rng.choice(["", "x", "_b"]))
                d = {n: self.data}
                if rng.random() < 0.6:
                    d["sib"] = {k: "wrong" for k in keys[:3]}
                if rng.random() < 0.3:
                    d = dict(reversed(list(d.items())))
                inner.insert(0, n)
                self.data = d
            self.path += inner
            text = write_table(rng, self.data, self.loader)
        self.text = text
        M.ev("ld_" + self.loader)
        self.rng, self.M = rng, M
        self.source = rng.choice(["tag", "include", "api"])
        M.ev("src_" + self.source)
        self.file = None
        if self.source == "include" or (self.source == "api" and rng.random() < 0.4):
            self.file = M.write("tab_%s.txt" % name, text)

    def tag(self):
        if self.source == "api":
            return ""
        a = ' load="%s"' % self.loader
        if self.loader == "python" and self.rng.random() < 0.5:
            a = ""
        if self.key:
            a += " key=%s" % gen.quoteattr(self.key)
        if self.source == "include":
            return rng_tag(self.rng, self.name, a + " include=%s" % gen.quoteattr(self.file))
        return "<lookup name=%s%s>\n%s\n</lookup>\n" % (gen.quoteattr(self.name), a, gen.escape(self.text))

    def api(self, p):
        if self.source == "api":
            if self.file:
                p.add_lookup(self.name, include=self.file, load=self.loader, key=self.key)
            else:
                p.add_lookup(self.name, text_data=self.text, load=self.loader, key=self.key)

    def ref(self):
        return self.rng.choice([".", ".", " . "]).join(self.path)


def rng_tag(rng, name, a):
    return rng.choice(["<lookup name=%s%s/>\n", "<lookup name=%s%s></lookup>\n"]) % (gen.quoteattr(name), a)


def probes(rng, keys, n):
    """values: keys and near misses"""
    out = []
    for _ in range(n):
        k = rng.choice(keys)
        r = rng.random()
        if r < 0.5:
            v = k
        elif r < 0.9:
            v = rng.choice([k + "0", k[:-1] or "z", k.swapcase(), "x" + k, k + "." + k, k.replace(" ", "_"), "pre-" + k + "-post", k + " ", key_text(rng)]).strip()
        else:
            v = "none%d" % rng.randint(0, 99)
        out.append(v or "z")
    return out


def modifier(rng, M, v):
    """functions after the lookup: (source, new value)"""
    if isinstance(v, list):
        M.ev("modified_after")
        return ' | append("tail")', v + ["tail"]
    return "", v


def arg(rng, s):
    return rng.choice(["'%s'", '"%s"']) % s


def build(tables, body, pre=""):
    t = "".join(tb.tag() for tb in tables)
    return pre + t + body + "\n" if len(tables) % 2 else pre + body + "\n" + t


def run(M, tables, tpl, datas):
    from ttp import ttp
    M.note(template=tpl, data=datas, tables=[(t.name, t.loader, t.source, t.data) for t in tables])
    p = ttp(template=tpl)
    for t in tables:
        t.api(p)
    for d in datas:
        p.add_input(d)
    p.parse(one=True)
    M.ev("parses")
    r1 = copy.deepcopy(p.result())
    p.clear_result()
    p.parse(one=True)
    M.ev("second_parse")
    M.eq(p.result(), r1, "second parse of the same inputs with the same tables")
    return r1


def wrap(recs):
    return {} if not recs else {"g": recs[0] if len(recs) == 1 else recs}


def extra_table(rng, M, tables, keys):
    """a second table with the same keys under another name"""
    if rng.random() < 0.5:
        tables.append(Table(rng, M, rng.choice(["zother", "tabx", "t"]), [k for k in rng.sample(keys, min(2, len(keys)))], mk=lambda: "WRONG", loader=rng.choice(["json", "yaml"])))


def lines_of(rng, vals):
    d = "~ %d\n" % rng.randint(0, 10 ** 9)  # identical inputs count once
    for v in vals:
        d += "rec %s\n" % v
        if rng.random() < 0.2:
            d += "~ noise %s\n" % gen.word(rng)
    return d


def nkeys(rng, M):
    if rng.random() < 0.97:
        return rng.randint(2, 9)
    M.ev("long_tables")
    return rng.choice([60, 300, 1100])


def case_exact(rng, M):
    keys = keyset(rng, nkeys(rng, M))
    tb = Table(rng, M, rng.choice(["tab", "my-table", "aux_csv", "T b"]), keys)
    keys = list(tb.at) or ["z"]
    tables = [tb]
    extra_table(rng, M, tables, keys)
    add = rng.choice([None, "as_details", "new field", "x"])
    path = tb.ref()
    table = tb.at
    r = rng.random()
    if r < 0.06:
        path, table = path + ".nope", {}
    elif r < 0.1:
        path, table = "nope." + path, {}
    elif r < 0.14 and keys[0] in tb.at and "." not in keys[0] and "'" not in keys[0] and keys[0].strip() == keys[0]:
        path = path + "." + keys[0]
        v = tb.at[keys[0]]
        table = v if isinstance(v, dict) else {}
    if table is not tb.at:
        M.ev("bad_path")
    mod = not add and rng.random() < 0.5
    call = "lookup(%s)" % (arg(rng, path) if not add else rng.choice(["%s, add_field=%s", "%s, add_field=%s", "name=%s, add_field=%s"]) % (arg(rng, path), arg(rng, add)))
    body = "<group name=\"g*\">\nrec {{ n | re(\".+\") | %s%s }}\n</group>\n" % (call, ' | append("tail")' if mod else "")
    datas, exp = [], []
    hits = miss = 0
    for _ in range(rng.randint(1, 3)):
        vals = probes(rng, keys, rng.randint(3, 12))
        recs = []
        for v in vals:
            M.ev("exact")
            if v in table:
                hits += 1
                M.ev("exact_found")
                e = copy.deepcopy(table[v])
                if add:
                    recs.append({"n": v, add: e})
                    continue
            else:
                miss += 1
                M.ev("exact_missing")
                e = v
            if mod:
                M.ev("modified_after")
                if isinstance(e, str):
                    e = e + "tail"
                elif isinstance(e, list):
                    e = e + ["tail"]
            recs.append({"n": e})
        datas.append(lines_of(rng, vals))
        exp.append({"g": recs})
    got = run(M, tables, build(tables, body), datas)
    M.eq(got, [exp], "exact lookup")
    M.case((tb.loader, tb.source, len(tb.path), add, mod, len(keys), hits, miss), nontrivial=bool(hits and miss), n=hits + miss, sample=call)


def case_rlookup(rng, M):
    keys = keyset(rng, nkeys(rng, M))
    tb = Table(rng, M, rng.choice(["tab", "locations", "T"]), keys)
    keys = list(tb.at) or ["z"]
    tables = [tb]
    extra_table(rng, M, tables, keys)
    add = rng.choice([None, "location", "new field"])
    path, table = tb.ref(), tb.at
    if rng.random() < 0.05:
        path, table = path + ".nope", {}
        M.ev("bad_path")
    call = "rlookup(%s)" % (arg(rng, path) if not add else "%s, add_field=%s" % (arg(rng, path), arg(rng, add)))
    mod = not add and rng.random() < 0.4
    body = "<group name=\"g*\">\nrec {{ n | re(\".+\") | %s%s }}\n</group>\n" % (call, ' | append("tail")' if mod else "")
    datas, exp = [], []
    hits = miss = 0
    for _ in range(rng.randint(1, 2)):
        vals = []
        for _ in range(rng.randint(3, 12)):
            r = rng.random()
            v = gen.word(rng, 1, 3, "xyzw")
            for _ in range(0 if r < 0.3 else rng.randint(1, 3)):
                v = rng.choice(["%s%s", "%s-%s", "%s %s"]) % (v, rng.choice(keys)) if rng.random() < 0.5 else rng.choice(["%s%s", "%s.%s"]) % (rng.choice(keys), v)
            if r < 0.1:
                v = rng.choice(keys)[:-1] or "z"
            vals.append(v.strip() or "z")
        recs = []
        for v in vals:
            M.ev("rlookup")
            found = [k for k in table if k in v]
            if len(found) > 1:
                M.ev("rlookup_ambiguous")
            if found:
                hits += 1
                M.ev("rlookup_found")
                e = copy.deepcopy(table[found[0]])
                if add:
                    recs.append({"n": v, add: e})
                    continue
            else:
                miss += 1
                e = v
            if mod:
                M.ev("modified_after")
                if isinstance(e, str):
                    e = e + "tail"
                elif isinstance(e, list):
                    e = e + ["tail"]
            recs.append({"n": e})
        datas.append(lines_of(rng, vals))
        exp.append({"g": recs})
    got = run(M, tables, build(tables, body), datas)
    M.eq(got, [exp], "reverse lookup")
    M.case((tb.loader, tb.source, len(tb.path), add, len(keys), hits, miss), nontrivial=bool(hits and miss), n=hits + miss, sample=call)


PIECES = ["DC1", "DC2", "CORP", "WIFI", "SW", "RT", "FW", "A1", "02", "1", "core"]


def hostname(rng):
    h = "-".join(rng.choice(PIECES) for _ in range(rng.randint(1, 5)))
    # patterns are case sensitive
    return h if rng.random() < 0.85 else h.swapcase()


def pattern(rng):
    h = [rng.choice(PIECES) for _ in range(rng.choice([1, 1, 1, 2]))]
    return rng.choice(["*%s*", "*%s*", "*%s*", "%s*", "%s*", "*-%s", "%s-?W-*", "*%s-[0-9]*", "%s", "*[!0-9]%s", "*%s-SW-?", "*.%s.*"]) % "-".join(h)


def case_gpv(rng, M):
    names = rng.sample(["corporate", "datacentre", "wifi", "Lab One", "x", "fw"], rng.randint(1, 5))
    most = 4
    if rng.random() < 0.04:
        M.ev("long_tables")
        names, most = names + gen.words(rng, rng.randint(1, 60)), rng.choice([4, 40])
    used = iter(())
    tb = Table(rng, M, rng.choice(["domains", "gp"]), names, mk=lambda: [pattern(rng) for _ in range(rng.randint(0, most))], loader=rng.choice(["python", "yaml", "json"]))
    del used
    tables = [tb]
    add = rng.choice([None, "Network Domains", "nd"])
    multi = rng.choice([None, True, False, True])
    path, table = tb.ref(), tb.at
    if rng.random() < 0.05:
        path, table = path + ".nope", {}
        M.ev("bad_path")
    record = rng.random() < 0.3
    a = [arg(rng, path)]
    if add:
        a.append("add_field=%s" % arg(rng, add))
    if multi is not None:
        a.append("multimatch=%s" % multi)
    if record:
        a.append("record='dom'")
    call = "gpvlookup(%s)" % ", ".join(a)
    mod = not add and not record and rng.random() < 0.3
    vals = [hostname(rng) for _ in range(rng.randint(4, 14))]

    def find(v):
        f = [k for k, ps in table.items() if any(fnmatch.fnmatchcase(v, p) for p in ps)]
        return f if multi else f[:1]

    recs = []
    last = None
    hits = miss = 0
    data = ""
    for v in vals:
        M.ev("gpv")
        f = find(v)
        if record and not f and rng.random() < 0.9:
            continue
        data += "rec %s\n" % v
        if f:
            hits += 1
            M.ev("gpv_found")
            if len(f) > 1:
                M.ev("gpv_multi")
            recs.append({"n": v, add: list(f)} if add else {"n": list(f) + (["tail"] if mod else [])})
        else:
            miss += 1
            recs.append({"n": v + ("tail" if mod else "")})
        if record:
            last = f
    if record and (not recs or not last):
        M.case("trivial", nontrivial=False)
        return
    body = "<group name=\"g*\">\nrec {{ n | %s%s }}\n</group>\n" % (call, ' | append("tail")' if mod else "")
    exp = {"g": recs}
    if record:
        M.ev("recorded")
        data += "seen here\n"
        body += "<group name=\"s\">\nseen {{ w }}\n{{ dom | set(dom) }}\n</group>\n"
        exp["s"] = {"w": "here", "dom": list(last)}
    got = run(M, tables, build(tables, body), [data])

    def dd(o):
        # a key is reported once per matching pattern: how often is not specified
        if isinstance(o, list) and o and isinstance(o[0], str):
            return list(dict.fromkeys(o))
        return o
    for part in ("g", "s"):
        for r in (got[0][0].get(part, []) if part == "g" else [got[0][0].get(part, {})]):
            for k in r:
                r[k] = dd(r[k])
    if not recs:
        exp.pop("g")
    M.eq(got, [[exp]], "glob pattern lookup")
    M.case((tb.loader, len(tb.path), add, multi, record, len(names), hits, miss), nontrivial=bool(hits and (miss or record)), n=max(1, hits + miss), sample=call)


def action(rng, M):
    """keyword arguments of the group function and what they do to the record"""
    add = rng.choice([None, None, "APP", "new field"])
    upd = rng.choice([None, None, True, False])
    rep = rng.choice([None, None, None, True, False])

    def act(rec, key, e):
        if add:
            M.ev("group_add")
            rec[add] = e
        elif upd and isinstance(e, dict):
            M.ev("group_update")
            rec.update(e)
        elif rep is not False:
            M.ev("group_replace")
            rec[key] = e
        else:
            M.ev("group_nothing")
    return [(k, v) for k, v in (("add_field", add), ("update", upd), ("replace", rep)) if v is not None], act


def gcall(rng, key, how, path, kw):
    kw = [(how, path)] + kw
    if rng.random() < 0.4:
        rng.shuffle(kw)
    s = ["'%s'" % key if rng.random() < 0.5 else key] + ["%s=%s" % (k, "'%s'" % v if isinstance(v, str) else v) for k, v in kw]
    return ", ".join(s)


def groupattr(rng, name, calls):
    """the group tag"""
    if len(calls) == 1 and rng.random() < 0.6:
        return "<group name=%s lookup=%s>" % (gen.quoteattr(name), gen.quoteattr(calls[0]))
    return "<group name=%s functions=%s>" % (gen.quoteattr(name), gen.quoteattr(" | ".join("lookup(%s)" % c for c in calls)))


def case_group(rng, M):
    keys = [k for k in keyset(rng, rng.randint(2, 8)) if " " not in k] or ["a"]
    tb = Table(rng, M, rng.choice(["tab", "lookup_data"]), keys)
    keys = list(tb.at) or ["z"]
    tables = [tb]
    extra_table(rng, M, tables, keys)
    calls, steps = [], []
    for _ in range(rng.choice([1, 1, 1, 2])):
        key = rng.choice(["n", "m", "n", "opt", "nokey"])
        path, table = tb.ref(), tb.at
        if rng.random() < 0.06:
            path, table = path + ".nope", {}
            if rng.random() < 0.3:
                path += ".deeper"
            M.ev("bad_path")
        elif rng.random() < 0.08:
            # path goes into a value of the table
            v = rng.choice([x for x in tb.at if "." not in x and "'" not in x and x.strip() == x] or [None])
            if v is not None:
                path, table = path + "." + v, tb.at[v] if isinstance(tb.at[v], dict) else {}
                if rng.random() < 0.3:
                    w = rng.choice(["deep", "a", "1"])
                    path += "." + w
                    table = table[w] if isinstance(table.get(w), dict) else {}
                M.ev("leaf_path")
        kw, act = action(rng, M)
        calls.append(gcall(rng, key, "name", path, kw))
        steps.append((key, table, act))
    body = groupattr(rng, "g*", calls) + "\nrec {{ n }} {{ m }}\n opt {{ opt }}\n</group>\n"
    datas, exp = [], []
    hits = miss = 0
    for _ in range(rng.randint(1, 2)):
        recs, d = [], "~ %d\n" % rng.randint(0, 10 ** 9)
        for _ in range(rng.randint(2, 9)):
            n, m, o = [v.replace(" ", "_") for v in probes(rng, keys, 3)]
            rec = {"n": n, "m": m}
            d += "rec %s %s\n" % (n, m)
            if rng.random() < 0.6:
                rec["opt"] = o
                d += " opt %s\n" % o
            for key, table, act in steps:
                M.ev("group_lookup")
                if key not in rec:
                    M.ev("group_key_missing")
                    continue
                try:
                    e = copy.deepcopy(table[rec[key]])
                except (KeyError, TypeError):
                    miss += 1
                    continue
                hits += 1
                M.ev("group_found")
                act(rec, key, e)
            recs.append(rec)
        datas.append(d)
        exp.append({"g": recs})
    got = run(M, tables, build(tables, body), datas)
    M.eq(got, [exp], "group lookup")
    M.case((tb.loader, tb.source, len(tb.path), calls, hits, miss), nontrivial=bool(hits and miss), n=max(1, hits + miss), sample=calls)


def case_results(rng, M):
    """lookups in results of other groups and templates"""
    from ttp import ttp
    keys = list(dict.fromkeys(gen.word(rng, 2, 4, "abcd") + str(rng.randint(0, 20)) for _ in range(rng.randint(2, 6))))
    top = rng.choice(["intfs", "tabl", "x1"])
    sub = rng.choice([[], [], ["deep"], ["d1", "d2"]])
    src_name = ".".join([top] + sub) + ".{{ k }}"
    table = {}
    src = ""
    for k in keys:
        rec = {"ip": gen.ip4(rng)}
        src += "intf %s\n ip %s\n" % (k, rec["ip"])
        if rng.random() < 0.5:
            rec["mode"] = rng.choice(["up", "down"])
            src += " mode %s\n" % rec["mode"]
        table[k] = rec
    src_group = "<group name=\"%s\"%s>\nintf {{ k }}\n ip {{ ip }}\n mode {{ mode }}\n</group>\n"
    how = rng.choice(["group_same", "group_other", "template", "template", "match_template", "match_group"])
    kw, act = action(rng, M)
    madd = rng.choice([None, "info"])
    vals = []
    for _ in range(rng.randint(2, 9)):
        vals.append(rng.choice(keys) if rng.random() < 0.6 else rng.choice(keys) + "0")
    exp = []
    hits = miss = 0
    bad = rng.random() < 0.08
    for v in vals:
        rec = {"n": v}
        if v in table and not bad:
            hits += 1
            e = copy.deepcopy(table[v])
            if how.startswith("match"):
                if madd:
                    rec[madd] = e
                else:
                    rec["n"] = e
            else:
                act(rec, "n", e)
        else:
            miss += 1
        exp.append(rec)
    arp = "".join("arp %s\n" % v for v in vals)
    path = ".".join([top] + sub) + (".nope" if bad else "")
    nested = dict(table)
    for s in reversed([top] + sub):
        nested = {s: nested}
    M.ev("results_group" if "group" in how else "results_template")
    if how.startswith("match"):
        mark = "template='first.%s'" % path if how == "match_template" else "group='%s'" % path
        g = "<group name=\"g*\"%s>\narp {{ n | lookup(" + mark + (", add_field='%s'" % madd if madd else "") + ") }}\n</group>\n"
    else:
        mark = ("template", "first." + path) if how == "template" else ("group", path)
        g = groupattr(rng, "g*", [gcall(rng, "n", mark[0], mark[1], kw)])[:-1] + "%s>\narp {{ n }}\n</group>\n"
    if how == "group_same":
        tpl = src_group % (src_name, "") + g % ""
        data = src + arp if rng.random() < 0.5 else arp + src
        M.note(template=tpl, data=data)
        p = ttp(data=data, template=tpl)
        p.parse(one=True)
        want = [[dict(nested, g=exp)]]
    elif how in ("group_other", "match_group"):
        mode = rng.random() < 0.3
        pre, post, want_pre, want_post = "", "", [], []
        if rng.random() < 0.4:
            # input in front without such results
            pre = "<input name=\"Z\" load=\"text\">\nzz 1\n</input>\n"
            want_pre = [{"zz": {"z": "1"}}]
            post = "<group name=\"zz\" input=\"Z\">\nzz {{ z }}\n</group>\n"
        tpl = pre + "<input name=\"A\" load=\"text\">\n%s</input>\n" % src
        if rng.random() < 0.4:
            # the first results that have the group are used
            tpl += "<input name=\"A2\" load=\"text\">\n%s</input>\n" % "".join("intf %s\n ip 0.0.0.0\n" % k for k in dict.fromkeys(keys + [k + "0" for k in keys]))
            x = {k: {"ip": "0.0.0.0"} for k in keys + [k + "0" for k in keys]}
            for s in reversed([top] + sub):
                x = {s: x}
            want_post = [x]
            M.ev("several_sources")
        tpl += "<input name=\"B\" load=\"text\">\n%s</input>\n" % arp + post
        tpl += src_group % (src_name, ' input="A%s"' % (", A2" if want_post else "")) + g % ' input="B"'
        del mode
        M.note(template=tpl)
        p = ttp(template=tpl)
        p.parse(one=True)
        want = [want_pre + [nested] + want_post + [{"g": exp}]]
    else:
        mode = rng.choice(["per_input", "per_template"])
        more, x = "", None
        if mode == "per_input" and rng.random() < 0.3:
            # results of the first input are used
            more = "<input name=\"zlast\" load=\"text\">\n%s</input>\n" % "".join("intf %s\n ip 0.0.0.0\n" % k for k in dict.fromkeys(keys + [k + "0" for k in keys]))
            x = {k: {"ip": "0.0.0.0"} for k in keys + [k + "0" for k in keys]}
            for s in reversed([top] + sub):
                x = {s: x}
            M.ev("several_sources")
        tpl = "<template name=\"first\" results=\"%s\">\n<input name=\"afirst\" load=\"text\">\n%s</input>\n%s%s</template>\n<template name=\"second\">\n<input load=\"text\">\n%s</input>\n%s</template>\n" % (
            mode, src, more, src_group % (src_name, ""), arp, g % "")
        M.note(template=tpl)
        p = ttp(template=tpl)
        p.parse(one=True)
        want = [nested if mode == "per_template" else [nested] + ([x] if x else []), [{"g": exp}]]
    M.ev("parses")
    M.eq(p.result(), want, "lookup in results (%s)" % how)
    M.case((how, len(sub), kw, madd, hits, miss), nontrivial=bool(hits and miss), n=hits + miss, sample=how)


def case_loaders(rng, M):
    """the same table in every format through every door gives the same answers"""
    keys = [k for k in keyset(rng, rng.randint(2, 6)) if ini_ok(k)] or ["a"]
    vals = {k: rng.choice(TEXTS) for k in keys}
    data = lines_of(rng, probes(rng, keys, 8))
    outs = []
    descr = []
    from ttp import ttp
    for loader in ["python", "yaml", "json", "ini", "csv"]:
        for src in ["tag", "include", "api", "api_include", "tag_both"]:
            if src == "tag_both" and (loader == "json" or len(vals) < 2):
                continue
            t = copy.deepcopy(vals)
            key = None
            if loader == "csv":
                text, order = write_table(rng, {k: {"V": v} for k, v in t.items()}, "csv", "K")
                key = "K" if order[0] != "K" else None
                ref = "tab"
            else:
                text = write_table(rng, {"sec": t}, loader)
                ref = "tab.sec"
            tag = ""
            f = M.write("%s_%s" % (loader, src), text) if "include" in src else None
            if src == "tag_both":
                # a part of the table in the tag, the rest in the file
                M.ev("split_table")
                ks = list(t)
                n = rng.randint(1, len(ks) - 1)
                one, two = {k: t[k] for k in ks[:n]}, {k: t[k] for k in ks[n:]}
                if loader == "csv":
                    rows = list(csv.reader(io.StringIO(text)))
                    w = [io.StringIO(), io.StringIO()]
                    csv.writer(w[0], lineterminator="\n").writerows(rows[:n + 1])
                    csv.writer(w[1], lineterminator="\n").writerows(rows[n + 1:])
                    one, two = w[0].getvalue(), w[1].getvalue()
                elif loader == "ini":
                    one, two = write_table(rng, {"sec": one}, "ini"), write_table(rng, {rng.choice(["sec", "sec"]): two}, "ini")
                elif loader == "yaml":
                    import yaml
                    one = yaml.safe_dump({"sec": one}, default_flow_style=False, allow_unicode=True, sort_keys=False)
                    two = "".join("  " + x + "\n" for x in yaml.safe_dump(two, default_flow_style=False, allow_unicode=True, sort_keys=False, width=10 ** 6).splitlines())
                else:
                    one, two = "sec = %r\n" % one, "".join("sec[%r] = %r\n" % kv for kv in two.items())
                f = M.write("%s_rest" % loader, two)
                tag = "<lookup name=\"tab\" load=\"%s\"%s include=\"%s\">\n%s</lookup>\n" % (loader, ' key="K"' if key else "", f, gen.escape(one))
            ka = ' key="K"' if key else ""
            if src == "tag":
                tag = "<lookup name=\"tab\" load=\"%s\"%s>\n%s</lookup>\n" % (loader, ka, gen.escape(text))
            elif src == "include":
                tag = "<lookup name=\"tab\" load=\"%s\"%s include=\"%s\"/>\n" % (loader, ka, f)
            tpl = tag + "<group name=\"g*\">\nrec {{ n | re(\".+\") | lookup(\"%s\", add_field=\"V\") }}\n</group>\n" % ref
            M.note(template=tpl, data=data, loader=loader, source=src, text=text)
            p = ttp(data=data, template=tpl)
            if src == "api":
                p.add_lookup("tab", text_data=text, load=loader, key=key)
            elif src == "api_include":
                p.add_lookup("tab", include=f, load=loader, key=key)
            p.parse(one=True)
            M.ev("parses")
            M.ev("ld_" + loader)
            M.ev("src_" + src.split("_")[0])
            res = p.result()
            if loader == "csv":
                for r in res[0][0]["g"]:
                    if "V" in r:
                        r["V"] = r["V"]["V"]
            outs.append(res)
            descr.append((loader, src))
    exp = []
    hits = 0
    for line in data.splitlines():
        if line.startswith("rec "):
            v = line[4:].strip()
            r = {"n": v}
            if v in vals:
                hits += 1
                r["V"] = vals[v]
            exp.append(r)
    for o, d in zip(outs, descr):
        M.eq(o, [[{"g": exp}]], "lookup in the table given as %s by %s" % d)
    M.case((len(keys), hits, len(exp)), nontrivial=0 < hits < len(exp), n=len(outs))


class Obj:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def fake_geoip():
    """stands in for the geoip2 library, which is not installed: readers of databases kept as JSON text"""
    import sys
    import types
    if "geoip2" in sys.modules:
        return
    pkg, mod = types.ModuleType("geoip2"), types.ModuleType("geoip2.database")

    class Reader:
        def __init__(self, path):
            with open(path) as f:
                self.rows = json.load(f)
            self.kind = self.rows.pop("kind")

        def _get(self, kind, ip):
            if kind != self.kind:
                raise TypeError("not a %s database" % kind)
            import ipaddress
            ipaddress.ip_address(ip)
            return self.rows[str(ip)]

        def _place(self, r):
            return dict(continent=Obj(names={"en": r["continent"], "de": "X"}, code=r["cc"]), country=Obj(iso_code=r["iso"], names=dict({"fr": "Y"}, **({"en": r["country"]} if r["country"] else {}))),
                        traits=Obj(network=Obj(with_prefixlen=r["net"])))

        def country(self, ip):
            return Obj(**self._place(self._get("country", ip)))

        def city(self, ip):
            r = self._get("city", ip)
            return Obj(city=Obj(name=r["city"]), location=Obj(latitude=r["lat"], longitude=r["lon"], accuracy_radius=r["rad"]), postal=Obj(code=r["post"]),
                       subdivisions=Obj(most_specific=Obj(name=r["state"], iso_code=r["sic"])), **self._place(r))

        def asn(self, ip):
            r = self._get("asn", ip)
            return Obj(autonomous_system_number=r["asn"], autonomous_system_organization=r["org"], network=Obj(with_prefixlen=r["net"]))
    mod.Reader = Reader
    pkg.database = mod
    sys.modules["geoip2"], sys.modules["geoip2.database"] = pkg, mod


def case_geo(rng, M):
    fake_geoip()
    ips = list({gen.ip4(rng) for _ in range(rng.randint(2, 6))}) + ["2001:db8::%x" % rng.randint(1, 99)]
    dbs, text = {}, []
    name = rng.choice(["geoip2_test", "geo"])
    for kind in rng.sample(["city", "asn", "country"], rng.randint(1, 3)):
        key = "".join(rng.choice([c, c.upper()]) for c in kind)
        rows = {ip: dict(continent=rng.choice(["Oceania", "Asia"]), cc="OC", iso=gen.word(rng)[:2].upper(), country=rng.choice(["Australia", ""]), net=ip + "/24", city="City" + ip, lat=rng.randint(-90, 90) + 0.5, lon=0.0, rad=rng.randint(0, 100),
                         post=rng.choice(["3788", None]), state="St" + ip, sic="VIC", asn=rng.randint(1, 65535), org="Org" + ip) for ip in ips if rng.random() < 0.7}
        path = M.write("%s_%s.mmdb" % (name, kind), json.dumps(dict(rows, kind=kind)))
        if rng.random() < 0.1:
            path, rows = path + ".absent", {}
            M.ev("geo_no_database")
        dbs[kind] = (key, rows)
        text.append((key, path))
    ld = rng.choice(["python", "yaml", "json", None])
    if ld in ("python", None):
        body = "\n".join("%s = %r" % kv for kv in text)
    elif ld == "yaml":
        body = "\n".join("%s: %s" % kv for kv in text)
    else:
        body = json.dumps(dict(text))
    t = '<lookup name="%s" database="%s"%s>\n%s\n</lookup>\n' % (name, rng.choice(["geoip2", "GeoIP2"]), " load=%r" % ld if ld else "", body)
    kind = rng.choice(["city", "asn", "country"])
    key, rows = dbs.get(kind, (kind, {}))
    if kind not in dbs:
        M.ev("geo_not_loaded")
    add = rng.choice([None, "geo", "city_data"])
    fn = "geoip_lookup(%s)" % rng.choice(["%r", "db_name=%r"]) % (name + "." + key)
    if add:
        fn = fn[:-1] + rng.choice([", add_field=%r)", ", add_field=%r)" if "db_name" in fn else ", %r)"]) % add
    t += '<group name="g*">\nip {{ ip | %s }} {{ m }}\n</group>' % fn
    exp, lines = [], []
    for i, ip in enumerate(rng.sample(ips, len(ips)) + ["not-an-ip", "10.0.0.999"]):
        lines.append("ip %s m%d" % (ip, i))
        e = {"ip": ip, "m": "m%d" % i}
        M.ev("geo")
        if ip in rows:
            r = rows[ip]
            place = {"continent": r["continent"], "country_iso_code": r["iso"], "country": r["country"], "network": r["net"]}
            e[add or "geoip_lookup"] = {"asn": {"ASN": r["asn"], "organization": r["org"], "network": r["net"]}, "country": dict(place, continent_code=r["cc"]),
                                        "city": dict(place, city=r["city"], latitude=r["lat"], longitude=r["lon"], accuracy_radius=r["rad"], postal_code=r["post"], state=r["state"], state_iso_code=r["sic"])}[kind]
            M.ev("geo_found")
        exp.append(e)
    M.eq(M.parse(t, "\n".join(lines) + "\n"), [[{"g": exp}]], "lookup in databases of addresses")
    M.case((t, tuple(lines)), nontrivial=any(len(e) > 2 for e in exp))


KINDS = {"geo": (case_geo, 500, 15000), "exact": (case_exact, 3000, 150000), "rlookup": (case_rlookup, 2500, 120000), "gpv": (case_gpv, 2500, 120000), "group": (case_group, 3000, 150000), "results": (case_results, 3000, 150000), "loaders": (case_loaders, 200, 10000)}
