#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
T = "ttp/ttp.py"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)

p("P01", "A template line captures exactly the data lines it describes",
  "A template line captures from a data line if and only if that line has the same leading indentation, the same literal text and variable text fitting every variable's pattern (a built-in pattern, a regular expression, or several alternatives), followed by optional trailing blanks. Punctuation in the template is literal, a run of blanks stands for any non-empty run of blanks or tabs, and a run of digits for any digits, except that a line marked as digit-exact or space-exact requires those digits or blanks verbatim. Each captured value is exactly the text at the variable's place, and text under an ignore placeholder is matched but never reported.",
  ["inputs", "programs"], "every template line built from literal text, indentation, digits, punctuation and variables, and every data line, matching or a near miss",
  "tests sample a few hundred concrete lines; the generalisation rules must hold for every punctuation character, blank/digit run and pattern, and above all must reject near misses, which tests rarely contain",
  [T, "ttp/patterns/get_pattern.py", "ttp/utils/get_attributes.py"],
  [("template line to regex translation", "ttp/ttp.py: variable class, form_regex"), ("pattern table", "ttp/patterns/get_pattern.py"), ("attribute parsing", "ttp/utils/get_attributes.py")],
  ["result() of one-line and multi-line groups over generated lines, compared with an independent line matcher"])

p("P02", "Every record in the data is extracted exactly once, in order",
  "For a template describing one or several kinds of records, the results contain, for every record in the data and in data order, exactly one result holding exactly that record's own values: no record is lost, duplicated, merged or reordered, and no value moves to another record. Lines that the template does not describe, blank lines, absent optional lines, the order of the optional lines, line-ending style and records of other kinds in between change nothing. When one line repeats inside a record, before or after its child records, the first value is kept.",
  ["inputs", "programs"], "every sequence of records (with any subset and order of optional lines) interleaved with unrelated text, for every flat template",
  "tests check fixed captures; conservation and order have to hold for every arrangement of records, noise and missing lines",
  [T], [("match collection by position", "ttp/ttp.py: parser class, run_re/check_matches"), ("results state machine", "ttp/ttp.py: results class, make_results/start/add")],
  ["result() compared with the generated record list; uniquely tagged values give per-value provenance"],
  [("current record", "record being assembled", "ttp/ttp.py: results class record"), ("started/ended groups", "which groups accept matches", "ttp/ttp.py: results class")])

p("P03", "Child records attach to the parent record they appear under",
  "With nested groups of any depth, every child record is saved under the parent record that most recently started before it in the data, in data order, and parent values found after or between its children still belong to that parent. A child that appears before any parent, or under a parent discarded by a condition on its start line, is not attached to any other parent. The complete tree of records in the data is reproduced exactly, with no child lost, duplicated or re-parented.",
  ["inputs", "programs"], "every forest of nested records rendered as indented text, for every nesting of groups up to depth four, with noise, tail lines and missing levels",
  "tests use a handful of hand-written configurations; re-parenting errors show only for particular neighbour orders",
  [T], [("group path tracing", "ttp/ttp.py: results class, start/startempty/add"), ("saving by path", "ttp/ttp.py: results class, save_curelements/dict_by_path/value_to_list"), ("tail matches", "ttp/ttp.py: reconstruct_last_element/_merge_recursively")],
  ["result() compared with the generated forest; a global multiset of unique tags"])

p("P04", "Results are placed at the path the group name describes",
  "A group's results appear at its dotted path: relative to the parent group or absolute with a leading slash, under the template's own separator if it sets one; a single asterisk always yields a list at that level, a double asterisk always a dictionary that later results join, and neither yields a dictionary that becomes a list from the second result on. Path parts in braces are replaced by the record's own value (which is then removed from the record), else by the latest value used for that name, else by a template variable, and a record with an unresolvable part is dropped; the value is inserted verbatim whatever characters it contains. A null path part merges the child into its parent, unnamed groups produce a list merged with the other results, and integer conversion of dynamic keys happens only when requested.",
  ["inputs", "programs", "configurations"], "every group name form (static, absolute, asterisks, dynamic, null, unnamed), every captured key value and every number of records",
  "the outcome depends on the number of records, on their keys and on what was saved before; tests show one example of each form",
  [T], [("path forming", "ttp/ttp.py: group class extract_name, results class form_path"), ("structure building", "ttp/ttp.py: list_to_dict_fwd/dict_by_path/value_to_list")],
  ["result() against an executable model of path semantics"])

p("P05", "Filters keep and drop exactly what their condition says",
  "A condition on a match variable discards that line's match when it is false: on a record's starting line the whole record with its children is dropped, on any other line only that line's values are dropped. A condition on a group drops exactly the records for which it is false and leaves the others untouched. Conditions in a chain are all required, and no filter changes a value or affects another record, group or input.",
  ["inputs", "programs"], "every supported match condition and group condition, alone and chained, over values on both sides of each boundary",
  "each condition has boundary values and combinations with starting lines, defaults and children that tests do not enumerate",
  [T, "ttp/match/string.py", "ttp/match/re_.py", "ttp/match/ip.py", "ttp/group/contains.py", "ttp/group/containsall.py", "ttp/group/exclude.py", "ttp/group/excludeall.py", "ttp/group/equal.py", "ttp/group/contains_val.py", "ttp/group/exclude_val.py", "ttp/group/void.py"],
  [("match conditions", "ttp/match/string.py, ttp/match/re_.py, ttp/match/ip.py"), ("invalidated records", "ttp/ttp.py: make_results ended groups"), ("group conditions", "ttp/group/*.py, ttp/ttp.py: processgrp")],
  ["result() against plain predicates evaluated over the generated records"])

p("P06", "Defaults and set values fill only what is missing, per record",
  "A variable with a default, or a group-wide default, appears in every record of that group with the captured value if its line was present and with the default otherwise; more specific defaults win over the group's, and a group whose starting line has defaults is reported even when nothing matched. An unconditional set adds its value, or the current value of the named variable, to every record; a conditional set does so only for records containing its line. Values filled in for one record are independent of those of every other record, input and parse.",
  ["inputs", "programs", "histories"], "every combination of present and absent lines, default values (text, variables, lists, dictionaries) and set forms over several records and inputs",
  "tests check single records; sharing of a mutable default or leaking of an earlier input's value needs several records or inputs",
  [T, "ttp/match/set_.py", "ttp/group/set_.py"],
  [("default collection", "ttp/ttp.py: group class defaults/set_runs/update_runs"), ("default filling", "ttp/ttp.py: processgrp"), ("set", "ttp/match/set_.py, ttp/group/set_.py")],
  ["result() against the record model; object-identity walk over the results"])

p("P07", "Explicit start, end, line, join, table and header forms delimit records",
  "With several start lines each matching line opens a new record; after an end line nothing more is added to that record until a new one starts; a whole-line variable collects, in order, exactly the lines of the record that no other line of its group or child groups takes and that pass its conditions, and joined matches accumulate in data order with the given separator (strings) or as a list. In a table-type group every template line is a start line and one record results per matching line. A headers line splits every following row at the header columns, strips the cells, gives empty ones as empty text and rejects rows missing mandatory columns.",
  ["inputs", "programs"], "every arrangement of start, end, joined, whole-line, table and column rows around and inside records",
  "these forms interact with positions of first and last matches in the text; tests have one or two texts per form",
  [T, "ttp/match/joinmatches.py"],
  [("start/end windows", "ttp/ttp.py: run_re"), ("join", "ttp/ttp.py: results class join/end/startempty"), ("headers regex", "ttp/ttp.py: form_regex regex_headers")],
  ["result() against generated records with known line lists and cells"])

p("P08", "Match transformations compute their documented value for any text",
  "Each match variable function (string, list, regular-expression, type, range, time, MAC and IP conversions, formatting, adding new fields, copying and Python string methods) replaces the value by its documented result for that value, chains apply strictly left to right, and arguments naming template variables use that variable's content. A number, range or time conversion whose text does not have that form leaves it unchanged, and a transformation never discards a match or touches other variables of the record.",
  ["inputs", "programs"], "every function, every argument form and every captured text, alone and in chains",
  "unit tests check one typical value per function; edge values (empty items, out-of-range indexes, signs, several replacements, non-numbers) and chain order are open",
  ["ttp/match/string.py", "ttp/match/re_.py", "ttp/match/to.py", "ttp/match/item.py", "ttp/match/unrange.py", "ttp/match/uptimeparse.py", "ttp/match/mac_eui.py", "ttp/match/ip.py", "ttp/match/let.py", "ttp/match/copy_.py", "ttp/match/raise_.py", T],
  [("function dispatch", "ttp/ttp.py: check_matches"), ("functions", "ttp/match/*.py")],
  ["result() against independently written reference functions"])

p("P09", "Group functions transform each record exactly as documented",
  "Group functions (deleting, formatting, setting, recording, integer and IP conversion, itemizing, expanding dotted names, items-to-dictionary, schema validation) are applied to every record of their group, in the order given, after defaults are filled in, and produce the documented record. Keys and records that a function is not about keep their values, and a missing key leaves a record as it was, except where the function is documented to drop it.",
  ["inputs", "programs"], "every group function with every argument form over records with present, absent and defaulted keys, alone and chained",
  "tests show one record per function; order of functions, absent keys and interaction with paths, defaults and children are not enumerated",
  ["ttp/group/delete.py", "ttp/group/sformat.py", "ttp/group/set_.py", "ttp/group/record.py", "ttp/group/to_converters.py", "ttp/group/to_ip.py", "ttp/group/itemize.py", "ttp/group/expand.py", "ttp/group/items2dict.py", "ttp/group/validate_cerberus.py", T],
  [("function dispatch", "ttp/ttp.py: processgrp"), ("functions", "ttp/group/*.py")],
  ["result() against reference record transformers"])

p("P10", "Lookups return the table entry for the value and nothing else",
  "An exact, reverse-substring or glob-pattern lookup on a value replaces it by, or adds under the requested name, exactly the entry the table holds for it - first match in table order, or all matching keys when asked - and leaves the record unchanged when there is none. The answer is the same for a table loaded from any supported text format, included from a file, added through the API, nested under a dotted name, or taken from another group's or template's results. Lookups never alter the table.",
  ["inputs", "programs", "configurations"], "every table and looked-up value, hits and misses, in every lookup function, source and table format",
  "tests use one small table per function and never check that tables survive or that formats agree",
  ["ttp/match/lookup.py", "ttp/group/lookup.py", "ttp/utils/loaders.py", T],
  [("match lookups", "ttp/match/lookup.py"), ("group lookup", "ttp/group/lookup.py"), ("table loading", "ttp/utils/loaders.py, ttp/ttp.py: parse_lookup/add_lookup")],
  ["result() against a dictionary model; tables compared before and after"])

p("P11", "Template variables and recorded values have the documented scope",
  "Template variables have the same content whichever loader, include file, constructor argument or API call supplied them, reach every function that accepts variable names, and are reported in the results at the path named by their tag. Recorded and counted values are visible to everything parsed later in the same input; an input starts without the previous input's local values, while global ones persist across inputs. Getter variables (host name, file name, times) are computed from each input's own text, name and clock.",
  ["inputs", "histories", "configurations"], "every loader and source of variables and every sequence of inputs with recorded, counted and computed variables",
  "tests use one or two inputs; leakage between inputs depends on sequences, and loader agreement on content",
  ["ttp/utils/loaders.py", "ttp/match/record.py", "ttp/match/count.py", "ttp/match/set_.py", "ttp/group/record.py", "ttp/group/set_.py", "ttp/variable/gethostname.py", "ttp/variable/getfilename.py", "ttp/variable/time_funcs.py", T],
  [("variable loading", "ttp/ttp.py: parse_vars, ttp/utils/loaders.py"), ("per-input copy", "ttp/ttp.py: set_data/run_var_functions"), ("results placement", "ttp/ttp.py: save_vars")],
  ["result() over generated input sequences against a two-scope store model"])

p("P12", "Macros and custom functions are called exactly as documented",
  "A macro or registered custom function runs exactly once for every value, record, input or result it is attached to (for a record, again when lines found after its child records are added to it), in template order, and receives the data as it stands at that point together with its template arguments. Its return is honoured: true or nothing keeps the data, false discards the match, record or remaining processing of that input, a two-item tuple with a dictionary adds those fields to the record, anything else replaces the data. Every template uses its own macros even when several templates define the same name, and functions registered through the API are usable in every template loaded afterwards, nested templates included.",
  ["inputs", "programs", "histories"], "every scope (match, group, input, output, returner, formatter, variable, macro), return kind and call sequence",
  "tests check the final result of one macro; call counts, argument fidelity and isolation between templates need a recorded call history",
  [T, "ttp/match/macro.py", "ttp/group/macro.py", "ttp/input/macro.py", "ttp/output/macro.py", "ttp/utils/load_python_exec_py3.py"],
  [("macro dispatch", "ttp/match/macro.py, ttp/group/macro.py, ttp/input/macro.py, ttp/output/macro.py"), ("registration", "ttp/ttp.py: add_function/parse_macro")],
  ["call log recorded by the macros and functions themselves, checked offline together with result()"])

p("P13", "Each input is read as selected and parsed by exactly its own groups",
  "Every text, file or directory given through the API or an input tag becomes exactly one parsed item per text or file, in the order given, including only files with a listed extension and matching the name filters, read from the base path plus the url. Each item is parsed by exactly the groups selected for it: those naming that input if any do, else the groups listed for it, else all groups naming no input; inputs declared or added under the same name are one input with the data and groups of all of them. Input parameters are reported back unchanged, and command extraction and other input functions see and replace the text before parsing.",
  ["inputs", "configurations"], "every set of inputs, files, extensions, filters, urls and group selections, through tags and API",
  "routing is a relation between all inputs and all groups; tests contain a few fixed pairs",
  [T, "ttp/utils/loaders.py", "ttp/input/commands.py", "ttp/input/macro.py"],
  [("input attributes", "ttp/ttp.py: input class get_attributes/load_data"), ("file loading", "ttp/utils/loaders.py: load_files"), ("group inputs", "ttp/ttp.py: update_inputs_with_groups/update_input")],
  ["result() with every item and group tagged; get_input_load()"])

p("P14", "A reused parser behaves like a sequential store of inputs and results",
  "For every sequence of adding, setting and clearing inputs, parsing and clearing results, each parse appends, in input order, one result per current input item to the results kept so far (or, in combined mode, replaces them by one joined result), and the result of an item depends only on that item's text, the template and the documented global values. Clearing results or inputs removes exactly those of the named templates, and a cleared and reused parser gives the same results as a fresh one. Reading results any number of times, in any structure, changes nothing.",
  ["histories"], "every sequence of API calls on one parser with one or more templates, in both result modes",
  "tests make one parse per parser; leftovers of earlier calls only show in longer histories",
  [T], [("input bookkeeping", "ttp/ttp.py: add_input/set_input/clear_input/update_input"), ("result bookkeeping", "ttp/ttp.py: form_results/clear_result"), ("per-input reset", "ttp/ttp.py: set_data/set_runs")],
  ["recorded API call history checked against a sequential model whose per-item results come from fresh parsers"])

p("P15", "Parser objects in one process do not influence each other",
  "Any number of parser objects may exist in one process and be created, loaded, parsed and read in any alternation: each gives exactly the results it would give alone in a fresh process. In particular its variables, recorded values, macros, custom functions, lookups and templates are never those of another parser object.",
  ["histories"], "every alternation of calls on two or more parser objects, using every kind of function",
  "tests create one parser after another and never return to an earlier one; contamination shows only when calls alternate",
  [T, "ttp/match/set_.py", "ttp/match/record.py", "ttp/match/lookup.py", "ttp/output/transform.py", "ttp/formatters/table_formatter.py"],
  [("function loading and shared context", "ttp/ttp.py: CachedModule.load, lazy_import_functions")],
  ["results of alternated parsers against the same call sequence on isolated ones"])

p("P16", "Multi-process parsing returns the same results as single-process parsing",
  "For per-input results, parsing with several processes yields, for every set of inputs, templates, lookups, variables, macros and custom functions, the same collection of per-input results as parsing in one process: none missing, none repeated, none altered. Which mode is used by default depends only on total data size and item count, and asking for both modes is refused. No process started by the parse is left behind.",
  ["schedules", "inputs", "configurations"], "every number of inputs around the worker count, all feature combinations, under varied worker delays",
  "a couple of tests run multi-process mode on fixed data; lost or repeated items and features missing in workers depend on scheduling and on the feature used",
  [T], [("worker pool", "ttp/ttp.py: __parse_in_multiprocess, worker class"), ("mode choice", "ttp/ttp.py: parse/_calculate_overall_data_size")],
  ["uniquely tagged inputs, results compared as a multiset; worker side event log with injected delays; child process table"])

p("P17", "Templates of one parser are isolated and results keep the chosen structure",
  "With several templates, whether added separately or nested as child templates, each template parses exactly the inputs addressed to it with its own groups, variables, lookups and macros. Results are returned per template in load order as lists, as a dictionary by template name, or flattened to one list, restricted to the template names asked for, and the three structures hold the same data. Name filters load exactly the named templates, variables and lookups added through the API reach every template loaded so far, and nothing that one template defines is seen by another.",
  ["inputs", "programs", "configurations"], "every set of templates, nesting, names, filters and result structures",
  "tests show two fixed templates; isolation and agreement of the structures are relations over all of them",
  [T], [("template loading", "ttp/ttp.py: add_template/parse_template/load_template_xml"), ("result structures", "ttp/ttp.py: result"), ("API additions", "ttp/ttp.py: add_vars/add_lookup")],
  ["result() in all structures, with every template and input tagged"])

p("P18", "Formatters render results faithfully and leave them unchanged",
  "JSON, YAML and Python pretty-printing read back to exactly the results; table, CSV, spreadsheet and tabulated output contain exactly one row per record and one column per requested (or occurring) key, with every value in its own column, missing ones filled in and keyed dictionaries flattened under the key name; template rendering sees the whole results. Cells containing separators or quotes survive reading back. Formatting never changes the stored results, whether requested by an output tag or when reading results.",
  ["inputs", "configurations"], "every result structure the parser can produce, every formatter and its options",
  "tests compare one fixed rendering per formatter; faithful rendering has to hold for missing keys, odd characters and nested data",
  ["ttp/formatters/table_formatter.py", "ttp/formatters/csv_formatter.py", "ttp/formatters/json_formatter.py", "ttp/formatters/yaml_formatter.py", "ttp/formatters/pprint_formatter.py", "ttp/formatters/tabulate_formatter.py", "ttp/formatters/excel_formatter.py", "ttp/formatters/jinja2_formatter.py", "ttp/output/transform.py", T],
  [("table forming", "ttp/formatters/table_formatter.py"), ("flattening", "ttp/output/transform.py"), ("dispatch", "ttp/ttp.py: outputter run")],
  ["formatted text decoded by independent readers (json, yaml, ast, csv, openpyxl) and compared with raw results; deep snapshot before and after"])

p("P19", "Outputs run in order and deliver exactly once where they are told to",
  "Outputs of a template run once per parse in template order, each on the results left by the previous one; an output with a condition runs only when the variable has that value. Every listed returner receives the formatted data exactly once - printed once, written once to the named file (with name formatting applied), or one message per item to each server - and the results are replaced by the processed data only if the output returns to self. An output attached to a group receives exactly that group's results and no others; outputs and functions given when results are read apply to each template's own results in every structure.",
  ["inputs", "configurations", "histories"], "every set of outputs, returners, formatters, conditions and group attachments, over one or more parses",
  "tests inspect one output at a time; order, exactly-once delivery and separation of group results are relations over all of them",
  [T, "ttp/returners/file_returner.py", "ttp/returners/terminal_returner.py", "ttp/returners/self_returner.py", "ttp/returners/syslog_returner.py"],
  [("output run", "ttp/ttp.py: outputter class"), ("group outputs", "ttp/ttp.py: update_groups_with_outputs, parser class parse"), ("returners", "ttp/returners/*.py")],
  ["delivery log: custom returner calls, captured stdout, files written in a scratch folder, datagrams received on loopback"])

p("P20", "Output functions judge and transform results correctly",
  "Equality checks report equal exactly when the results equal the given structure; schema validation reports validity, in every mode, exactly as the schema decides for each item, with errors and formatted details for the failing ones; difference reports are empty exactly when the compared inputs, templates or variables have equal results. Traversal returns the element at the path, for every item of a list, failing or giving an empty one when it is absent as requested; flattening keeps every entry and adds its key.",
  ["inputs", "configurations"], "every result structure, schema, path and pair of compared results, equal and differing in one place",
  "tests check fixed outcomes; both directions of each verdict must hold for every structure",
  ["ttp/output/is_equal.py", "ttp/output/validate_cerberus.py", "ttp/output/deepdiffer.py", "ttp/output/transform.py", T],
  [("functions", "ttp/output/*.py"), ("dispatch", "ttp/ttp.py: outputter run")],
  ["verdicts compared with direct evaluation over raw results"])

p("P21", "Extending a template equals writing the extended content in place",
  "A template that extends others, at top level or inside groups and to any depth, parses exactly as the template obtained by writing the selected content at the place of each extend tag, siblings keeping their order. Filters select exactly the named (or, for groups, numbered) groups, inputs, outputs, variables and lookups and leave tags of the other kinds in, and a content macro is applied before use. A template that cannot be found is reported as an error and never silently skipped.",
  ["programs", "configurations"], "every split of a template into extended parts, with any number, order, nesting and filters of extend tags",
  "tests use a few fixed pairs of files; equivalence must hold for every way to cut and filter a template",
  [T], [("extend processing", "ttp/ttp.py: handle_extend/filter_extend/construct_etree")],
  ["result() of the extended template against that of the independently inlined template"])

p("P22", "Parsing arbitrary text terminates without failing or inventing data",
  "For a valid template made of matching and filtering only, parsing any text at all - empty, binary-like, with control or non-ASCII characters, truncated or repeated - ends without an exception, and every value reported occurs verbatim in that text at a place the template describes. Parsing is deterministic, and adding text that no template line describes before or after the data, or at record boundaries, changes no result. Comments, blank lines, lines without variables, documentation, empty and unused tags and the spelling of tags and placeholders in the template change no result either.",
  ["inputs"], "every text over every template without raising or converting functions",
  "tests contain well-formed captures only; hostile and damaged texts are the usual input in the field",
  [T, "ttp/patterns/get_pattern.py"], [("match collection", "ttp/ttp.py: parser class"), ("results forming", "ttp/ttp.py: results class")],
  ["exceptions, step budget, provenance of every leaf value, repeated runs and transformed texts"])

p("P23", "The function cache never changes what the parser does",
  "Results are the same whether the cache file is absent, fresh, from another version, truncated, corrupted, unreadable, in a folder that cannot be written, or being written by other processes at the same time, and every built-in function stays available. A usable cache is written when it can be, only in the configured folder.",
  ["fault_sequences", "crash_points", "schedules", "configurations"], "every state of the cache file, every truncation point, and concurrent starts",
  "tests never damage the cache nor start processes concurrently",
  [T], [("cache load and rebuild", "ttp/ttp.py: lazy_import_functions, CachedModule")],
  ["results and available functions in child processes started over prepared cache states; files seen in the folder"])

p("P24", "Command line and one-call interface equal the class interface",
  "The command line tool and the one-call function give the same results as constructing the parser with the same data, template, variables, base path, structure and mode. The command line prints the results once in the requested format, limited to the requested templates, prints no results when no format is asked for, and keeps logs of the requested level apart from the results.",
  ["inputs", "configurations"], "every combination of options, templates and data",
  "there are no tests of option combinations",
  [T, "ttp/utils/quick_parse.py"], [("command line", "ttp/ttp.py: cli_tool"), ("one-call function", "ttp/utils/quick_parse.py")],
  ["captured standard output decoded and compared with result() of the class interface"])

p("P25", "Objects and files belonging to the caller are left as they were",
  "Loading, parsing and reading results never modify the variables, structured inputs, template text, lists and options the caller passed in, nor any template, include or data file; two parsers given the same objects do not see each other's changes. Result items obtained earlier are not changed by later parsing of other inputs, templates or parsers, nor by clearing results or inputs.",
  ["inputs", "histories"], "every kind of argument and file passed to the API, over sequences of calls",
  "tests build fresh literals for every call and never look at their arguments again",
  [T, "ttp/utils/loaders.py"], [("argument copying", "ttp/ttp.py: ttp class, template class")],
  ["deep snapshots of arguments and files before and after; digests of files"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
