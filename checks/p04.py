"""P04 - results are placed at the path the group name describes."""
import copy

import gen

RULE = ("random sets of 1-3 top groups with children (depth up to 3) whose names take every path form (static, nested, * and **, composite and multi-variable dynamic parts, template "
        "variables, unresolvable parts, absolute, null, unnamed, own separator), with captured keys repeated and full of special characters; a reference model of the path rules replays "
        "the records in data order. Non-trivial: at least two records saved and one path of more than one item or with a mark or dynamic part.")
NEED = {"dynamic_keys": 44002, "repeated_keys": 14614, "special_keys": 28926, "int_keys": 9295, "null_paths": 2315, "absolute_paths": 1169, "unnamed_groups": 3333, "dropped_unresolved": 7547, "from_template_vars": 831,
        "list_conversions": 5013, "own_separator": 2721, "tail_values": 10005, "captured_and_declared": 3022}

SPECIAL = ["\\1", "\\g<0>", "a\\d+", "*", "x*", "**", "a.b", "a.b.c", "_", "__", "/", "a/b/c", "{x}", "%s", "None", "True", "[0]", "(a)", "a|b", "^a$", "+", "?", "@#", "'q'", "Σ", "é",
           "007", "0", "10", "10", "3", "\u00b2", "-5", "1.5", "1e3", ":", "->", "a:b", "~", "\\", "\\\\", "$1", "&amp;", "<a>", "\"", "=", ",", "a,b", "'"]


class Grp:
    pass


# ------------------------------------------------------------ reference model
def key_of(name, to_int):
    return int(name) if to_int and name.isdecimal() else name


def resolve(path, rec, cache, tvars):
    """list of (name or None, mark), or None if a part cannot be resolved; used keys leave the record"""
    out = []
    for parts, mark in path:
        if parts == ["_"]:
            out.append((None, ""))
            continue
        s = ""
        for p in parts:
            if isinstance(p, str):
                s += p
                continue
            var = p[0]
            if var in rec:
                cache[var] = rec.pop(var)
                s += cache[var]
            elif var in cache:
                s += cache[var]
            elif var in tvars:
                s += tvars[var]
            else:
                return None
        out.append((s, mark))
    return out


def save(root, path, rec, to_int, M):
    cur, cell = root, None
    for n, (name, mark) in enumerate(path):
        last = n == len(path) - 1
        if isinstance(cur, list):
            if not cur:
                cur.append({})
            cur = cur[-1]
        if name is None:
            if last:
                cur.update(rec)
                return cur
            continue
        k = key_of(name, to_int)
        if k not in cur:
            cur[k] = [] if mark == "*" else {}
        cell = (cur, k)
        cur = cur[k]
    if isinstance(cur, list):
        if rec:
            cur.append(rec)
        return rec
    elif path[-1][1] == "**":
        for a, b in rec.items():
            cur.setdefault(a, b)
    elif cur:
        cell[0][cell[1]] = [cur, rec]
        M.ev("list_conversions")
        return rec
    else:
        cur.update(rec)
    return cur


# ------------------------------------------------------------ generation
def make(rng, M, names, kws, depth, parent, tvars, sep, top_static):
    g = Grp()
    g.depth, g.children, g.parent = depth, [], parent
    g.kw = kws.pop()
    g.id = names.pop()
    g.id2 = names.pop() if rng.random() < 0.2 else None
    g.fields = [(kws.pop(), names.pop()) for _ in range(rng.choice([1, 1, 2]))]
    g.repeat = rng.random() < 0.5
    g.tail = (kws.pop(), names.pop()) if rng.random() < 0.3 else None
    form = rng.choice(["static", "static", "dynamic", "dynamic", "dynamic", "mixed"] + (["absolute", "null", "null", "unnamed"] if depth else ["unnamed"] if top_static else []))
    g.form = form
    own, items = None, []
    if form != "unnamed":
        for i in range(rng.choice([1, 1, 2, 2, 3]) if rng.random() < 0.96 or len(names) < 40 else rng.randint(4, 9)):
            items.append(item(rng, M, g, names, tvars, form, i))
        if form == "null":
            items = [(["_"], "")] + (items[1:] if rng.random() < 0.7 else [])
            M.ev("null_paths")
        if not depth and items[0][0] == ["_"]:
            items[0] = ([names.pop()], "")
    ppath = parent.path if parent else []
    if form == "unnamed":
        M.ev("unnamed_groups")
        g.path = list(ppath) if parent else [(["_anonymous_"], "*")]
        g.attr = ""
    else:
        text = sep.join("".join(p if isinstance(p, str) else "{{%s%s%s}}" % (p[1], p[0], p[1]) for p in parts) + mark for parts, mark in items)
        if form == "absolute":
            M.ev("absolute_paths")
            g.path = items
            text = "/" + text
        else:
            g.path = list(ppath) + items
        g.attr = ' name="%s"' % text
    if depth < 2 and rng.random() < (0.7 if depth == 0 else 0.4):
        for _ in range(rng.choice([1, 1, 2])):
            if len(kws) > 8:
                g.children.append(make(rng, M, names, kws, depth + 1, g, tvars, sep, False))
    return g


def item(rng, M, g, names, tvars, form, i):
    mark = rng.choice(["", "", "", "*", "*", "**"])
    dyn = form in ("dynamic", "mixed") and rng.random() < 0.7 or (form in ("absolute", "null") and rng.random() < 0.3)
    if not dyn:
        return ([names.pop() if rng.random() < 0.9 else str(rng.randint(1, 9))], mark)
    sp = rng.choice([" ", " ", "", "  "])
    r = rng.random()
    if r < 0.06:
        return ([("nosuchname", sp)], mark)
    if r < 0.16 and tvars:
        M.ev("from_template_vars")
        return ([(rng.choice(sorted(tvars)), sp)], mark)
    if r < 0.3:
        return ([rng.choice(["p-", "vlan", "x_", "\\d"]), (g.id, sp), rng.choice(["", "-s", "/"])], mark)
    if r < 0.45 and g.id2:
        return ([(g.id, sp), rng.choice(["", "@", "-", "and"]), (g.id2, sp)], mark)
    if r < 0.55 and g.parent is not None:
        return ([(g.parent.id, sp)], mark)     # own record has no such value: latest one used, if any
    return ([(g.id, sp)], mark)


def template(g):
    pad = " " * g.depth
    t = "<group%s>\n%s%s {{ %s }}%s\n" % (g.attr, pad, g.kw, g.id, " / {{ %s }}" % g.id2 if g.id2 else "")
    for kw, f in g.fields:
        t += "%s %s {{ %s }}\n" % (pad, kw, f)
    t += "".join(template(c) for c in g.children)
    return t + (" %s%s {{ %s }}\n" % (pad, g.tail[0], g.tail[1]) if g.tail else "") + "</group>\n"


def uses(path):
    return {p[0] for parts, _ in path for p in parts if not isinstance(p, str)}


def has_mark(path):
    return any(m for _, m in path) or uses(path) or len(path) > 1


def goes_elsewhere(g):
    """a descendant with an absolute path could save next to this record"""
    return any(c.form == "absolute" or goes_elsewhere(c) for c in g.children)


class Build:
    def __init__(self, rng, M, uniq, to_int):
        self.rng, self.M, self.uniq, self.to_int = rng, M, uniq, to_int
        self.rows, self.keys = [], {}

    def key(self, g):
        rng, M = self.rng, self.M
        pool = self.keys.setdefault(g.id, [])
        if pool and g.repeat and rng.random() < 0.5:
            M.ev("repeated_keys")
            return rng.choice(pool)
        r = rng.random()
        if r < (0.6 if self.to_int else 0.15):
            v = str(rng.choice([rng.randint(0, 30), rng.randint(0, 30), rng.randint(0, 10 ** 12)]))
            if self.to_int:
                M.ev("int_keys")
        elif r < 0.75:
            v = rng.choice(SPECIAL)
            M.ev("special_keys")
        else:
            v = self.uniq()
        pool.append(v)
        return v

    @staticmethod
    def rows_log(log, g, rec):
        """did another record start after this one"""
        return log[-1][1] is not rec

    def record(self, g, log):
        rng, M = self.rng, self.M
        rec = {g.id: self.key(g)}
        pad = " " * g.depth
        row = "%s%s %s" % (pad, g.kw, rec[g.id])
        if g.id2:
            rec[g.id2] = self.key(g)
            row += " / " + rec[g.id2]
        self.rows.append(row)
        # one own field is always there: an empty record is no result
        must = rng.randrange(len(g.fields))
        for n, (kw, f) in enumerate(g.fields):
            if n == must or rng.random() < 0.7:
                rec[f] = self.uniq()
                self.rows.append("%s %s %s" % (pad, kw, rec[f]))
        if uses(g.path):
            M.ev("dynamic_keys")
        log.append((g, rec))
        for c in g.children:
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                self.record(c, log)
        # own line after the children
        if g.tail and rng.random() < 0.6 and not any(c.form == "unnamed" for c in g.children) and not goes_elsewhere(g):
            val = self.uniq()
            self.rows.append("%s %s %s" % (pad, g.tail[0], val))
            if self.rows_log(log, g, rec):
                log.append((g, ("tail", rec, g.tail[1], val)))
            else:
                rec[g.tail[1]] = val
            M.ev("tail_values")


def walk(g):
    yield g
    for c in g.children:
        yield from walk(c)


def random_paths(rng, M):
    names = gen.words(rng, 90)
    kws = gen.tokens(rng, len(gen.KEYWORDS))
    tvars = {w: rng.choice(SPECIAL + ["host1"]) for w in [names.pop() for _ in range(rng.choice([0, 1, 2]))]}
    tvars = {k: v for k, v in tvars.items() if not set(v) & set("<>&\"'") and v not in ("None", "True")}
    sep = rng.choice([".", ".", ".", "|", ":", "->", "~"])
    to_int = rng.random() < 0.25
    uniq = gen.Uniq(rng)
    ntop = rng.choice([1, 1, 2, 3])
    tops = [make(rng, M, names, kws, 0, None, tvars, sep, True) for _ in range(ntop)]
    # a variable of the template named as a captured one: the captured value goes first
    for g in [x for top in tops for x in walk(top)]:
        if rng.random() < 0.15:
            tvars[g.id] = "tv" + uniq()
            M.ev("captured_and_declared")
    t = "".join(template(g) for g in tops)
    if sep != ".":
        M.ev("own_separator")
        t = '<template pathchar="%s">\n%s</template>' % (sep.replace(">", "&gt;"), t)
    b = Build(rng, M, uniq, to_int)
    logs = {id(g): [] for g in tops}
    for _ in range(rng.randint(1, 7)):
        g = rng.choice(tops)
        b.record(g, logs[id(g)])
    data = "\n".join(b.rows)
    root, cache, n = {}, {}, 0
    for g in tops:
        saved = {}
        for grp, rec in logs[id(g)]:
            if isinstance(rec, tuple):
                if id(rec[1]) in saved:
                    saved[id(rec[1])][rec[2]] = rec[3]
                continue
            orig = rec
            rec = dict(rec)
            path = resolve(grp.path, rec, cache, tvars)
            if path is None:
                M.ev("dropped_unresolved")
                continue
            n += 1
            saved[id(orig)] = save(root, path, rec, to_int, M)
    anon = root.pop("_anonymous_", None)
    exp = root
    if anon is not None:
        exp = anon + ([root] if root else [])
    kw = {}
    if tvars:
        kw["vars"] = dict(tvars)
    if to_int:
        kw["dynamic_path_key_to_int"] = True
    M.note(vars=tvars, to_int=to_int)
    res = M.parse(t, data, **kw)
    M.eq(res, [[exp]], "results at their paths")
    M.case((t, data), nontrivial=n > 1 and any(has_mark(g.path) for g in tops))


def shared_prefix(rng, M):
    """several top groups saving under one common branch, static or by the same captured key"""
    names, kws, uniq = gen.words(rng, 12), gen.tokens(rng, 12), gen.Uniq(rng)
    base = names.pop()
    dyn = rng.random() < 0.6
    star = rng.choice(["", "**"])
    n = rng.randint(2, 3)
    t, rows, exp = "", [], {}
    tails = [names.pop() for _ in range(n)]
    marks = [rng.choice(["", "*", "**"]) for _ in range(n)]
    recs = [[] for _ in range(n)]
    keys = [rng.choice(SPECIAL) for _ in range(2)] + [uniq()]
    for i in range(n):
        t += '<group name="%s%s.%s%s%s">\n%s%d {{ key }} {{ val }}\n</group>\n' % (base, star, "{{ key }}." if dyn else "", tails[i], marks[i], kws[0], i)
    for _ in range(rng.randint(2, 9)):
        i, k, v = rng.randrange(n), rng.choice(keys), uniq()
        recs[i].append((k, v))
        rows.append("%s%d %s %s" % (kws[0], i, k, v))
    # digits in template text are generalised: keep the kinds apart by letters
    for i in range(n):
        t = t.replace("%s%d {{" % (kws[0], i), "%s%s {{" % (kws[0], "abc"[i]))
        rows = [r.replace("%s%d " % (kws[0], i), "%s%s " % (kws[0], "abc"[i]), 1) for r in rows]
    root = {}
    for i in range(n):
        for k, v in recs[i]:
            if dyn:
                path, rec = [(base, star), (k, ""), (tails[i], marks[i])], {"val": v}
            else:
                path, rec = [(base, star), (tails[i], marks[i])], {"key": k, "val": v}
            save(root, path, rec, False, M)
            M.ev("dynamic_keys" if dyn else "static_prefix")
    res = M.parse(t, "\n".join(rows))
    M.eq(res, [[root]], "groups sharing a branch")
    M.case((t, tuple(rows)), nontrivial=sum(map(len, recs)) > 1)


def anonymous(rng, M):
    """groups without a name, or with name "/", give a list that the other results join"""
    kws, uniq, names = gen.tokens(rng, 8), gen.Uniq(rng), gen.words(rng, 6)
    n = rng.choice([1, 1, 2, 3])
    named = rng.random() < 0.6
    plain = n == 1 and not named and rng.random() < 0.4     # no tags at all
    t, rows = "", []
    attrs = [rng.choice(["", ' name="/"']) for _ in range(n)]
    for i in range(n):
        body = "%s {{ id }}\n mtu%s {{ v%d }}\n" % (kws[i], "abc"[i], i)
        t += body if plain else "<group%s>\n%s</group>\n" % (attrs[i], body)
    if named:
        mark = rng.choice(["*", ""])
        t += '<group name="%s%s">\n%s {{ id }}\n</group>' % (names[0], mark, kws[5])
    anon, other = [[] for _ in range(n)], []
    for _ in range(rng.randint(0, 6)):
        if named and rng.random() < 0.4:
            other.append({"id": uniq()})
            rows.append("%s %s" % (kws[5], other[-1]["id"]))
        else:
            i = rng.randrange(n)
            rec = {"id": uniq()}
            rows.append("%s %s" % (kws[i], rec["id"]))
            if rng.random() < 0.6:
                rec["v%d" % i] = uniq()
                rows.append(" mtu%s %s" % ("abc"[i], rec["v%d" % i]))
            anon[i].append(rec)
    flat = [r for a in anon for r in a]
    M.ev("unnamed_groups", n)
    d = {}
    if other:
        d[names[0]] = other if mark == "*" or len(other) > 1 else other[0]
    if plain:
        exp = flat[0] if len(flat) == 1 else flat or {}
    elif flat:
        exp = flat + ([d] if d else [])
    else:
        exp = d
    res = M.parse(t, "\n".join(rows) + "\n")
    M.eq(res, [[exp]], "unnamed groups")
    M.case((t, tuple(rows)), nontrivial=len(flat) > 0)


KINDS = {"random": (random_paths, 12000, 170000), "shared_prefix": (shared_prefix, 3000, 25000), "anonymous": (anonymous, 1400, 10000)}
