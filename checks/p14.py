"""P14 - a reused parser behaves like a sequential store of inputs and results."""
import copy
import json

import gen

RULE = ("random histories of 5-40 calls (add_input, set_input, clear_input, parse, clear_result, result in every structure and for every selection of templates, get_input_load, add_vars, add_lookup, add_template) on one parser with 1-4 templates - "
        "per-input and combined, with defaults, recorded and global counted values, declared inputs with groups and macros, lookups - checked after every reading against a model that keeps the inputs and results as plain lists and derives "
        "each item's result from the values written into its text. Some histories end by clearing everything and repeating the first half, to be compared with a fresh parser. Non-trivial: at least two parses with results kept in between.")
NEED = {"unnamed": 1318, "other_groups": 3849, "ops": 83645, "parses": 20823, "second_parses": 11548, "reads": 40123, "read_list": 13293, "read_dictionary": 13344, "read_flat": 13318, "read_selected": 16078, "read_formatted":
        3237, "add_input": 19296, "set_input": 6394, "clear_input": 6442, "clear_result": 6406, "clear_some_results": 2326, "items_parsed": 44392, "kept_items": 25097, "add_template": 1337, "add_vars": 3168, "add_lookup": 3202,
        "global_carried": 1221, "local_reset": 1706, "per_template": 2420, "declared_input": 7460, "all_templates": 3848, "file_changed": 1066, "fresh_compared": 919, "empty_parse": 4322}


class Template:
    """text of a template and what it makes of an item"""

    def __init__(self, rng, M, index, name, nested=False):
        self.rng, self.name, self.index = rng, name, index
        self.mode = "per_template" if rng.random() < 0.25 else "per_input"
        self.features = {f for f in ("local", "count", "dyn", "vars", "lookup", "default", "nested", "macro", "outer", "anon") if rng.random() < 0.4}
        if self.mode == "per_template":
            M.ev("per_template")
            self.features -= {"vars", "dyn"}
        self.vars = {"last": "none", "tag": "t%d" % index}
        self.lookup = {"ka": "one", "kb": "two"}
        self.totname = "tot%s" % "abcdefgh"[index]
        self.declared = {}
        tags = ""
        for i in range(rng.choice([0, 0, 1, 2])):
            M.ev("declared_input")
            n = "decl%d" % i
            sel = rng.choice([None, ["ga*"], ["gb*"], ["ga*", "gb*"]])
            pre = rng.random() < 0.4
            tags += "<input name=\"%s\"%s%s/>\n" % (n, " groups=\"%s\"" % ", ".join(sel) if sel else "", " macro=\"pre\"" if pre else "")
            self.declared[n] = (sel, pre)
        f = self.features
        b = "<vars%s>\nlast = \"none\"\ntag = \"t%d\"\n</vars>\n" % (" name=\"vars\"" if "vars" in f else "", index)
        b += "<lookup name=\"tbl\" load=\"python\">\n{\"ka\": \"one\", \"kb\": \"two\"}\n</lookup>\n"
        b += "<macro>\ndef pre(data):\n    return data.replace('rec ', 'rec p')\ndef mm(data):\n    return data + '!'\n</macro>\n"
        b += "<group name=\"ga*\">\nrec {{ n%s }}\n" % (" | macro('mm')" if "macro" in f else "")
        if "default" in f:
            b += " opt {{ o | default(\"-\") }}\n"
        else:
            b += " opt {{ o }}\n"
        if "outer" in f:
            b += "{{ who | set(\"tag\") }}\n"
        if "nested" in f:
            b += "<group name=\"kid*\">\n kid {{ k }}\n</group>\n"
        b += "</group>\n<group name=\"gb*\">\nalt {{ m }}\n</group>\n"
        if "anon" in f:
            b += rng.choice(["<group>\nanon {{ a }}\n</group>\n", "<group name=\"_anonymous_*\">\nanon {{ a }}\n</group>\n"])
        if "local" in f:
            b += "<group name=\"gc*\">\nput {{ x | record(\"last\") }}\n</group>\n<group name=\"gd*\">\nget {{ y }}\n{{ was | set(\"last\") }}\n</group>\n"
        if "count" in f:
            b += "<group name=\"ge*\">\nhit {{ h | count(globvar=\"%s\") }}\n</group>\n<group name=\"gf*\">\nsay {{ s }}\n{{ tot | set(\"%s\") }}\n</group>\n" % (self.totname, self.totname)
        if "dyn" in f:
            b += "<group name=\"gp.{{ key }}\">\nitem {{ key }} {{ v }}\n</group>\n"
        if "lookup" in f:
            b += "<group name=\"gl*\">\nlook {{ k | lookup(\"tbl\") }}\n</group>\n"
        self.text = (tags + b) if rng.random() < 0.5 else (b + tags)
        if self.mode == "per_template":
            self.text = "<template results=\"per_template\"%s>\n%s</template>\n" % (" name=\"%s\"" % name if nested else "", self.text)
        elif nested:
            self.text = "<template name=\"%s\">\n%s</template>\n" % (name, self.text)
        self.reset()

    def reset(self):
        self.inputs = {n: [] for n in self.declared}
        self.results = {} if False else []
        self.sel = {n: s[0] for n, s in self.declared.items()}

    def clear_inputs(self):
        """declared inputs stay, with the groups they were declared with"""
        self.inputs = {n: [] for n in self.declared}
        self.sel = {n: s[0] for n, s in self.declared.items()}

    # -- items
    def item(self, M, it, sel, pre, glob):
        """result of one item; glob are the documented global values"""
        f = self.features
        r = {}
        on = lambda g: sel is None or g + "*" in sel  # noqa: E731
        last = self.vars["last"]
        touched = False
        for rec in it["records"]:
            if rec[0] == "put" and "local" in f and on("gc"):
                last = rec[1]
                touched = True
            if rec[0] == "hit" and "count" in f and on("ge"):
                if self.totname in glob:
                    M.ev("global_carried")
                glob[self.totname] = glob.get(self.totname, 0) + 1
        if touched:
            M.ev("local_reset")
        # recorded values are global as well: but the declared one of a new input wins
        for rec in it["records"]:
            k = rec[0]
            if k == "rec" and on("ga"):
                d = {"n": ("p" if pre else "") + rec[1] + ("!" if "macro" in f else "")}
                if rec[2]:
                    d["o"] = rec[2]
                elif "default" in f:
                    d["o"] = "-"
                if "outer" in f:
                    d["who"] = self.vars["tag"]
                if "nested" in f and rec[3]:
                    d["kid"] = [{"k": x} for x in rec[3]]
                r.setdefault("ga", []).append(d)
            elif k == "alt" and on("gb"):
                r.setdefault("gb", []).append({"m": rec[1]})
            elif k == "anon" and "anon" in f and sel is None:
                M.ev("unnamed")
                r.setdefault("_anonymous_", []).append({"a": rec[1]})
            elif k == "put" and "local" in f and on("gc"):
                r.setdefault("gc", []).append({"x": rec[1]})
            elif k == "get" and "local" in f and on("gd"):
                r.setdefault("gd", []).append({"y": rec[1], "was": last})
            elif k == "hit" and "count" in f and on("ge"):
                r.setdefault("ge", []).append({"h": rec[1]})
            elif k == "say" and "count" in f and on("gf"):
                r.setdefault("gf", []).append({"s": rec[1], "tot": glob.get(self.totname, self.totname)})
            elif k == "item" and "dyn" in f and on("gp"):
                r.setdefault("gp", {})[rec[1]] = {"v": rec[2]}
            elif k == "look" and "lookup" in f and on("gl"):
                r.setdefault("gl", []).append({"k": self.lookup.get(rec[1], rec[1])})
        if "vars" in f and r:
            r["vars"] = {"last": last, "tag": self.vars["tag"]}
        return r

    @staticmethod
    def unnamed(r):
        """records of the group without a name make a list with the rest of results"""
        if "_anonymous_" not in r:
            return r
        rest = {k: v for k, v in r.items() if k != "_anonymous_"}
        return r["_anonymous_"] + ([rest] if rest else [])

    def parse(self, M, glob):
        out = []
        for n, items in self.inputs.items():
            pre = self.declared.get(n, (None, False))[1]
            for it in items:
                M.ev("items_parsed")
                out.append(self.item(M, it, self.sel[n], pre, glob))
        if self.mode == "per_input":
            self.results = self.results + [self.unnamed(r) for r in out]
        else:
            joined = {}
            for r in out:
                for k, v in r.items():
                    joined.setdefault(k, []).extend(v)
            self.results = self.unnamed(joined)


def make_item(rng, M, u):
    u.n += 1
    lines, recs = ["~ %d" % u.n], []
    for _ in range(rng.choice([0, 1, 2, 3, 5])):
        k = rng.choice(["rec", "rec", "alt", "put", "get", "hit", "say", "item", "look", "junk", "anon"])
        v = u().replace("=", "").replace("#", "").replace(".", "").replace("/", "")
        if k == "rec":
            o = u() if rng.random() < 0.5 else None
            kids = [u() for _ in range(rng.choice([0, 0, 1, 2]))]
            lines += ["rec " + v] + ([" opt " + o] if o else []) + [" kid " + x for x in kids]
            recs.append(("rec", v, o, kids))
        elif k == "item":
            x = u()
            lines.append("item %s %s" % (v, x))
            recs.append(("item", v, x))
        elif k == "look":
            v = rng.choice(["ka", "kb", "kc", v])
            lines.append("look " + v)
            recs.append(("look", v))
        else:
            lines.append("%s %s" % (k, v))
            recs.append((k, v))
    return {"text": "\n".join(lines) + "\n", "records": recs}


def case_history(rng, M):
    from ttp import ttp
    u = gen.Uniq(rng)
    nt = rng.choice([1, 1, 2, 2, 3])
    one_root = nt == 1 and rng.random() < 0.6
    nested = nt > 1 and rng.random() < 0.4
    T = [Template(rng, M, i, "_root_template_" if one_root else "t%d" % i, nested) for i in range(nt)]
    ops = []
    p = ttp()
    if nested:
        p.add_template("".join(t.text for t in T))
    else:
        for t in T:
            p.add_template(t.text) if t.name == "_root_template_" else p.add_template(t.text, template_name=t.name)
    M.note(templates=[t.text for t in T], ops=ops)
    glob = {}
    nparse = 0
    kept = 0
    sels = {}
    files = {}
    extra_vars = {}
    snap = None

    def targets(name):
        return [t for t in T if t.name == name or name == "_all_"]

    def add(name, iname, it, sel, how):
        kw = {}
        if iname != "Default_Input" or rng.random() < 0.2:
            kw["input_name"] = iname
        if name != "_root_template_" or rng.random() < 0.3:
            kw["template_name"] = name
        if sel is not None or rng.random() < 0.2:
            kw["groups"] = sel if sel is not None else ["all"]
        data = it["path"] if "path" in it else it["text"]
        (p.add_input if how == "add" else p.set_input)(data, **kw)
        ops.append((how, data if len(data) < 60 else data, kw))

    def read():
        M.ev("reads")
        names = [t.name for t in T]
        st = rng.choice(["list", "dictionary", "flat_list"])
        M.ev({"list": "read_list", "dictionary": "read_dictionary", "flat_list": "read_flat"}[st])
        sel = rng.choice([None, None, [], rng.sample(names, rng.randint(1, len(names))), rng.choice(names)])
        kw = {} if st == "list" and rng.random() < 0.5 else {"structure": st}
        if sel is not None:
            kw["templates"] = sel
            if sel:
                M.ev("read_selected")
        chosen = [t for t in T if not sel or (t.name in sel if isinstance(sel, list) else t.name == sel)]
        if st == "list":
            want = [t.results for t in chosen]
        elif st == "dictionary":
            want = {t.name: t.results for t in chosen}
        else:
            want = []
            for t in chosen:
                for x in t.results if isinstance(t.results, list) else [t.results]:
                    want += x if isinstance(x, list) else [x]
        ops.append(("result", kw))
        fmt = rng.random() < 0.12
        if fmt and st != "flat_list":
            M.ev("read_formatted")
            got = p.result(format="json", **kw)
            got = [json.loads(x) for x in got] if st == "list" else {k: json.loads(v) for k, v in got.items()}
        else:
            got = p.result(**kw)
        M.eq(got, want, "results read after %d calls" % len(ops))

    nops = gen.several(rng, 5, 30, (60, 120), 0.04)
    for step in range(nops):
        M.ev("ops")
        op = rng.choice(["add"] * 6 + ["set"] * 2 + ["clear_input", "clear_input", "clear_result", "clear_result"] + ["parse"] * 5 + ["read"] * 4 + ["vars", "lookup", "template", "load", "touch"])
        if op in ("add", "set"):
            M.ev("add_input" if op == "add" else "set_input")
            name = rng.choice([t.name for t in T])
            if rng.random() < 0.15:
                name = "_all_"
                M.ev("all_templates")
            tg = targets(name)
            iname = rng.choice(["Default_Input", "Default_Input", "in1", "in2"] + list(tg[0].declared))
            if name == "_all_":
                iname = rng.choice(["Default_Input", "in1"])
            it = make_item(rng, M, u)
            if rng.random() < 0.15:
                it["path"] = M.write("item%d.txt" % u.n, it["text"])
                files[it["path"]] = it
            # usually one selection of groups for every input name
            if rng.random() < 0.15:
                sel = rng.choice([None, ["ga*"], ["gb*"], ["gb*", "gc*"], ["ga*", "gd*"]])
                M.ev("other_groups")
            elif iname in tg[0].declared:
                sel = tg[0].declared[iname][0]
            else:
                sel = sels.setdefault(iname, rng.choice([None, None, ["ga*"], ["gb*", "ga*"], ["gc*", "gd*", "ge*", "gf*"]]))
            add(name, iname, it, sel, op)
            for t in tg:
                if op == "set":
                    t.clear_inputs()
                # groups of all that were added under the name
                old = t.sel[iname] if iname in t.inputs else []
                t.inputs.setdefault(iname, []).append(it)
                t.sel[iname] = None if sel is None or old is None else sorted(set(old) | set(sel))
        elif op == "clear_input":
            M.ev("clear_input")
            name = rng.choice([t.name for t in T] + ["_all_"])
            p.clear_input() if name == "_all_" and rng.random() < 0.7 else p.clear_input(template_name=name)
            ops.append(("clear_input", name))
            for t in targets(name):
                t.clear_inputs()
        elif op == "clear_result":
            M.ev("clear_result")
            names = [t.name for t in T]
            sel = rng.choice([None, [], rng.choice(names), rng.sample(names, rng.randint(1, len(names)))])
            p.clear_result() if sel is None else p.clear_result(templates=sel)
            ops.append(("clear_result", sel))
            for t in T:
                if not sel or (t.name in sel if isinstance(sel, list) else t.name == sel):
                    t.results = []
                else:
                    M.ev("clear_some_results")
        elif op == "parse":
            M.ev("parses")
            if nparse:
                M.ev("second_parses")
            k = sum(len(t.results) for t in T if isinstance(t.results, list))
            M.ev("kept_items", k)
            kept += bool(k)
            nparse += 1
            ops.append(("parse",))
            p.parse(one=True) if rng.random() < 0.7 else p.parse()
            if not any(i for t in T for i in t.inputs.values()):
                M.ev("empty_parse")
            for t in T:
                t.parse(M, glob)
            if rng.random() < 0.5:
                read()
        elif op == "read":
            for _ in range(rng.choice([1, 1, 2, 3])):
                read()
        elif op == "vars":
            M.ev("add_vars")
            v = {"tag": "n%d" % step}
            p.add_vars(v)
            ops.append(("add_vars", v))
            extra_vars.update(v)
            for t in T:
                t.vars.update(v)
        elif op == "lookup":
            M.ev("add_lookup")
            tb = {"ka": "L%d" % step, "kc": "three"}
            p.add_lookup("tbl", text_data=json.dumps(tb), load="json")
            ops.append(("add_lookup", tb))
            for t in T:
                t.lookup = dict(tb)
        elif op == "template":
            if len(T) < 4 and not one_root and rng.random() < 0.6:
                M.ev("add_template")
                t = Template(rng, M, len(T), "t%d" % len(T))
                p.add_template(t.text, template_name=t.name)
                ops.append(("add_template", t.text, t.name))
                # a variable or table of its own wins over those added before
                T.append(t)
        elif op == "load":
            want = {t.name: {n: {} for n in t.inputs} for t in T}
            got = p.get_input_load()
            ops.append(("get_input_load",))
            M.eq(got, want, "inputs known to the parser")
        elif op == "touch" and files:
            # files are read when they are parsed
            M.ev("file_changed")
            f = rng.choice(sorted(files))
            it = make_item(rng, M, u)
            files[f]["records"][:] = it["records"]
            M.write(f, it["text"])
            ops.append(("rewrite", f, it["text"]))
    p.parse(one=True)
    M.ev("parses")
    ops.append(("parse",))
    for t in T:
        t.parse(M, glob)
    read()
    read()
    M.eq(p.result(), [t.results for t in T], "results at the end")
    # cleared and reused: as a fresh one
    if rng.random() < 0.5 and not any("count" in t.features for t in T):
        M.ev("fresh_compared")
        p.clear_input()
        p.clear_result()
        q = ttp()
        if nested and all(t.index < nt for t in T):
            q.add_template("".join(t.text for t in T))
        else:
            for t in T:
                q.add_template(t.text) if t.name == "_root_template_" else q.add_template(t.text, template_name=t.name)
        if extra_vars:
            # variables added before some of the templates were loaded belong to those loaded later as well
            for t in T:
                t.vars["tag"] = "fin"
            p.add_vars({"tag": "fin"})
            q.add_vars({"tag": "fin"})
        tb = {"ka": "F", "kd": "z"}
        for x in (p, q):
            x.add_lookup("tbl", text_data=json.dumps(tb), load="json")
        for _ in range(rng.randint(1, 4)):
            t = rng.choice(T)
            iname = rng.choice(["Default_Input", "zz"] + list(t.declared))
            it = make_item(rng, M, u)
            for x in (p, q):
                x.add_input(it["text"], input_name=iname, template_name=t.name, groups=(t.declared[iname][0] if iname in t.declared else None))
        p.parse(one=True)
        q.parse(one=True)
        M.eq(p.result(), q.result(), "cleared and reused parser against a fresh one")
    M.case((nt, one_root, nested, nparse, min(kept, 3), len(ops) // 5, tuple(sorted(set(o[0] for o in ops)))[:6]), nontrivial=nparse > 1 and kept > 0, sample=[o[0] for o in ops], n=max(1, nparse))


KINDS = {"history": (case_history, 12000, 250000)}
