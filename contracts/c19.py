"""C19: queries of the data table return exactly the recorded facts."""
import os
import re
import shutil
import tempfile
import xml.etree.ElementTree as ET

from pyvc.harness import contract, Stand

LOW = "abcdefghijklmnopqrstuvwxyz0123456789_"
NAMES = ["a", "b", "ab", "temp", "temp2", "host", "x_call_list"]
ROOT = "ccpp_datatable"


class Elem(Stand):
    """assumed contract of xml.etree.ElementTree.Element (no paths in find)"""
    def __init__(self, tag, attrib=None, text=None, children=()):
        self.tag, self.attrib, self.text, self.children = tag, dict(attrib or {}), text, list(children)

    def set(self, name, value):
        self.attrib[name] = value

    def get(self, name, default=None):
        return self.attrib.get(name, default)

    def find(self, tag):
        for c in self.children:
            if c.tag == tag:
                return c
        return None

    def findall(self, tag):
        return [c for c in self.children if c.tag == tag]

    def __iter__(self):
        return iter(self.children)

    def __len__(self):
        return len(self.children)

    def __getitem__(self, i):
        return self.children[i]

    def __bool__(self):
        return bool(self.children)


def elem(v, tag, attrib=None, children=(), text=None):
    attrib = {k: x for k, x in (attrib or {}).items() if x is not None}
    if v.symbolic:
        return Elem(tag, attrib, text, children)
    e = ET.Element(tag, attrib)
    e.text = text
    e.extend(children)
    return e


def name(v, tag):
    return v.str(tag, charset=LOW, nonempty=True, pool=NAMES)


def set_of(v, got, facts, what):
    """got is the increasing list, without repetitions, of the x with (x, cond) among the facts"""
    for i in range(len(got) - 1):
        v.prove(v.And(got[i] <= got[i + 1], v.Not(v.eq(got[i], got[i + 1]))), "in order, each once",
                lambda: "%r" % (got,))
    for x, c in facts:
        v.prove(v.Implies(c, v.Or(False, *[v.eq(x, g) for g in got])), "every item which satisfies the query",
                lambda: "%r not in %r (%s)" % (x, got, what))
    for g in got:
        v.prove(v.Or(False, *[v.And(c, v.eq(x, g)) for x, c in facts]), "nothing else",
                lambda: "%r in %r (%s)" % (g, got, what))


def missing(v, f, *a):
    """without its section the table is rejected"""
    cd = v.repo("ccpp_datafile")
    out = v.call(f, elem(v, ROOT, {}, [elem(v, "other")]), *a)
    v.prove(isinstance(out.exc, cd.CCPPDatatableError), "a table without the section is an error", lambda: repr(out))


# ---------------------------------------------------------------- files, processes, modules, dependencies
@contract(["ccpp_datafile._retrieve_ccpp_files", "ccpp_datafile._find_table_section"], conc=1500, cases=[0, 1, 2, 3])
def generated_files(v, n):
    """the files of the sections asked for, in the recorded order"""
    cd = v.repo("ccpp_datafile")
    kinds = ["utilities", "host_files", "suite_files"]
    want_type = v.choice("type", [None] + kinds)
    sections, want, bad = [], [], False
    for i in range(n):
        tag = v.choice("section%d" % i, kinds + ["other"])
        files = []
        for j in range(v.choice("files%d" % i, [0, 1, 2] if n < 3 or not v.symbolic else [1])):
            t = v.str("file%d_%d" % (i, j), charset=LOW + "/.", nonempty=True, pool=["/a/b.F90", "c.F90", "a"])
            etag = v.choice("etag%d_%d" % (i, j), ["file", "file", "files"] if not v.symbolic or not j else ["file"])
            files.append(elem(v, etag, {}, [], t))
            if want_type in (None, tag):
                if etag != "file":
                    bad = True
                want.append(t)
        sections.append(elem(v, tag, {}, files))
    root = elem(v, ROOT, {}, [elem(v, "schemes"), elem(v, "ccpp_files", {}, sections)])
    out = v.call(cd._retrieve_ccpp_files, root, file_type=want_type)
    if bad:
        v.prove(isinstance(out.exc, cd.CCPPDatatableError), "an entry which is no file is an error",
                lambda: repr(out))
    else:
        v.prove(out.ok and len(out.value) == len(want), "as many files as recorded", lambda: "%r %r" % (out, want))
        if out.ok and len(out.value) == len(want):
            v.prove(v.And(True, *[v.eq(a, b) for a, b in zip(out.value, want)]), "the files, in order",
                    lambda: "%r %r" % (out, want))
    missing(v, cd._retrieve_ccpp_files)


@contract(["ccpp_datafile._retrieve_process_list"], conc=1500, cases=[0, 1, 2, 3])
def processes(v, n):
    """each process with its scheme, once, in order"""
    cd = v.repo("ccpp_datafile")
    schemes, want = [], []
    for i in range(n):
        s, p = name(v, "scheme%d" % i), None
        if n < 3 or not v.symbolic:
            p = v.choice("hasproc%d" % i, [True, False]) and name(v, "proc%d" % i) or None
        elif i:
            p = ["proc", "process"][i - 1]
        schemes.append(elem(v, "scheme", {"name": s, "process": p}, [elem(v, "run", {"name": s, "process": "no"})]))
        if p is not None:
            want.append(v.join("", [p, "=", s]))
    out = v.call(cd._retrieve_process_list, elem(v, ROOT, {}, [elem(v, "ccpp_files"),
                                                               elem(v, "schemes", {}, schemes)]))
    v.prove(out.ok, "answered", lambda: repr(out))
    if out.ok:
        set_of(v, out.value, [(x, True) for x in want], "processes")
    missing(v, cd._retrieve_process_list)


@contract(["ccpp_datafile._retrieve_module_list"], conc=1500, cases=[0, 1, 2, 3])
def modules(v, n):
    """each module of a phase of a scheme, once, in order"""
    cd = v.repo("ccpp_datafile")
    schemes, want = [], []
    for i in range(n):
        phases = []
        for j in range(v.choice("phases%d" % i, [0, 1, 2] if not v.symbolic else [1] if n == 3 or i else [0, 2])):
            m = None
            if v.symbolic and (n == 3 or j) or v.choice("hasmod%d_%d" % (i, j), [True, False]):
                m = name(v, "mod%d_%d" % (i, j))
                want.append(m)
            phases.append(elem(v, ["initialize", "run"][j], {"name": "s", "module": m}))
        schemes.append(elem(v, "scheme", {"name": "s%d" % i, "module": "no"}, phases))
    out = v.call(cd._retrieve_module_list, elem(v, ROOT, {}, [elem(v, "ccpp_files"),
                                                              elem(v, "schemes", {}, schemes)]))
    v.prove(out.ok, "answered", lambda: repr(out))
    if out.ok:
        set_of(v, out.value, [(x, True) for x in want], "modules")
    missing(v, cd._retrieve_module_list)


@contract(["ccpp_datafile._retrieve_dependencies"], conc=1000, cases=[0, 1, 2, 3, 4])
def dependencies(v, n):
    """each dependency once, in order"""
    cd = v.repo("ccpp_datafile")
    deps, want = [], []
    for i in range(n):
        t = None
        if v.choice("has%d" % i, [True, False] if not v.symbolic or i == 0 else [True]):
            t = v.str("dep%d" % i, charset=LOW + "/.", nonempty=True, pool=["/a/b.F90", "c.F90", "a", "b"])
            want.append(t)
        deps.append(elem(v, "dependency", {}, [], t))
    out = v.call(cd._retrieve_dependencies, elem(v, ROOT, {}, [elem(v, "dependencies", {}, deps)]))
    v.prove(out.ok, "answered", lambda: repr(out))
    if out.ok:
        set_of(v, out.value, [(x, True) for x in want], "dependencies")
    missing(v, cd._retrieve_dependencies)


# ---------------------------------------------------------------- suites
@contract(["ccpp_datafile._retrieve_suite_list", "ccpp_datafile._retrieve_suite_group_names"], conc=1000,
          cases=[0, 1, 2, 3])
def suites_and_groups(v, n):
    """suites, and the groups of one suite, in the recorded order"""
    cd = v.repo("ccpp_datafile")
    ask = name(v, "asked")
    suites, names, groups = [], [], []
    for i in range(n):
        s = name(v, "suite%d" % i)
        for y in names:
            v.assume(v.Not(v.eq(s, y)))
        names.append(s)
        parts = []
        for j in range(v.choice("parts%d" % i, [0, 1, 2] if n < 3 or not v.symbolic else [1])):
            g = name(v, "group%d_%d" % (i, j))
            tag = v.choice("tag%d_%d" % (i, j), ["group", "subcol"])
            parts.append(elem(v, tag, {"name": g, "phase": "run"}))
            if tag == "group":
                groups.append((s, g))
        suites.append(elem(v, "suite", {"name": s}, parts))
    form = v.choice("form", ["all", "no suites", "no api"] if n == 0 else ["all"])
    inner = [elem(v, "suites", {}, suites)] if form == "all" else []
    root = elem(v, ROOT, {}, [elem(v, "ccpp_files")] + ([elem(v, "api", {}, inner)] if form != "no api" else []))
    got = v.call(cd._retrieve_suite_list, root)
    v.prove(got.ok and len(got.value) == n and v.And(True, *[v.eq(a, b) for a, b in zip(got.value, names)]),
            "the suites, in order", lambda: "%r %r" % (got, names))
    got = v.call(cd._retrieve_suite_group_names, root, ask)
    v.prove(got.ok, "answered", lambda: repr(got))
    if got.ok:
        want = [g for s, g in groups if v.eq(s, ask)]
        v.prove(len(got.value) == len(want) and v.And(True, *[v.eq(a, b) for a, b in zip(got.value, want)]),
                "the groups of this suite, in order", lambda: "%r %r %r" % (ask, got, groups))


# ---------------------------------------------------------------- variables
def var_dict(v, tag, nvars, dname, dtype, parent=None, intents=("in", "out", "inout")):
    """(element, [(name, intent, protected)]) for a recorded dictionary; names are distinct in it"""
    facts, vs = [], []
    for j in range(nvars):
        x = name(v, "%s_var%d" % (tag, j))
        for y, _, _ in facts:
            v.assume(v.Not(v.eq(x, y)))
        intent = v.choice("%s_int%d" % (tag, j), list(intents))
        prot = v.choice("%s_prot%d" % (tag, j), [True, False])
        vs.append(elem(v, "var", {"name": x, "intent": intent, "protected": "True" if prot else None}))
        facts.append((x, intent, prot))
    kids = [elem(v, "variables", {}, vs)] if nvars or v.symbolic or v.choice(tag + "_sec", [True, False]) else []
    return elem(v, "var_dictionary", {"name": dname, "type": dtype, "parent": parent}, kids), facts


@contract(["ccpp_datafile._find_var_dictionary"], conc=1500, cases=[0, 1, 2, 3])
def a_dictionary(v, n):
    """the first dictionary with the name and type asked for"""
    cd = v.repo("ccpp_datafile")
    dicts, facts = [], []
    for i in range(n):
        dn, dt = name(v, "name%d" % i), name(v, "type%d" % i)
        e = elem(v, "var_dictionary", {"name": dn, "type": dt})
        dicts.append(e)
        facts.append((dn, dt))
    an = name(v, "aname") if v.choice("byname", [True, False]) else None
    at = name(v, "atype") if v.choice("bytype", [True, False]) else None
    root = elem(v, ROOT, {}, [elem(v, "api"), elem(v, "var_dictionaries", {}, dicts)])
    out = v.call(cd._find_var_dictionary, root, dict_name=an, dict_type=at)
    if an is None and at is None:
        v.prove(isinstance(out.exc, ValueError), "something must be asked for", lambda: repr(out))
        return
    v.prove(out.ok, "answered", lambda: repr(out))
    if not out.ok:
        return
    ok = [v.And(True if an is None else v.eq(an, dn), True if at is None else v.eq(at, dt)) for dn, dt in facts]
    if out.value is None:
        v.prove(v.Not(v.Or(False, *ok)), "nothing fits if nothing is found", lambda: "%r %r %r" % (an, at, facts))
    else:
        k = [i for i, e in enumerate(dicts) if e is out.value][0]
        v.prove(v.And(ok[k], *[v.Not(c) for c in ok[:k]]), "the first which fits",
                lambda: "%r %r %r: %d" % (an, at, facts, k))


@contract(["ccpp_datafile._is_variable_protected", "ccpp_datafile._find_var_dictionary"], conc=1500,
          cases=["none", "unknown", "second", "third"])
def protection(v, chain):
    """a variable is protected iff it is in this dictionary or one of its ancestors"""
    cd = v.repo("ccpp_datafile")
    ask = name(v, "asked")
    k = 2 if not v.symbolic else 1
    a, fa = var_dict(v, "a", 2 if chain != "third" else k, "a_call_list", "group_call_list",
                     {"none": None, "unknown": "gone", "second": "suite", "third": "suite"}[chain], ["in"])
    b, fb = var_dict(v, "b", k, "suite", "suite", "host" if chain == "third" else None, ["in"])
    c, fc = var_dict(v, "c", k, "host", "host", None, ["in"])
    order = v.choice("order", ["abc", "cba"] if not v.symbolic else ["cba"])
    ds = {"a": a, "b": b, "c": c}
    root = elem(v, ROOT, {}, [elem(v, "var_dictionaries", {}, [ds[x] for x in order])])
    facts = {"none": fa, "unknown": fa, "second": fa + fb, "third": fa + fb + fc}[chain]
    out = v.call(cd._is_variable_protected, root, ask, a)
    v.prove(out.ok, "answered", lambda: repr(out))
    if out.ok:
        v.prove(v.Iff(bool(out.value), v.Or(False, *[v.And(p, v.eq(x, ask)) for x, _, p in facts])),
                "protected iff protected in the chain", lambda: "%r %r: %r" % (ask, facts, out))


@contract(["ccpp_datafile._retrieve_variable_list", "ccpp_datafile._is_variable_protected",
           "ccpp_datafile._retrieve_suite_group_names"], conc=2500,
          cases=["host", "input", "output", "required", "banana"])
def variables_of_a_suite(v, intent):
    """the variables of the groups of one suite with a fitting intent, without protected ones if asked"""
    cd = v.repo("ccpp_datafile")
    excl = v.choice("exclude", [True, False])
    many = not v.symbolic
    host, fh = var_dict(v, "h", v.choice("nhost", [0, 1, 2]) if many else (2 if intent == "host" else 1),
                        "banana", "host", None, ["in"])
    sparent = v.choice("sparent", ["banana", None]) if many else None
    suite, fs = var_dict(v, "s", v.choice("nsuite", [0, 1]) if many else 0, "fruit", "suite", sparent, ["in"])
    ns = (v.choice("n1", [0, 1, 2]), v.choice("n2", [0, 1, 2])) if many else (1, 1) if intent != "host" else (0, 0)
    g1, f1 = var_dict(v, "g", ns[0], "fruit_a_call_list", "group_call_list", "fruit")
    g2, f2 = var_dict(v, "k", ns[1], "fruit_b_call_list", "group_call_list", "fruit")
    # same name, but not a call list; a call list of another suite
    d1, _ = var_dict(v, "d", 1 if many else 0, "fruit_a_call_list", "other", None)
    d2, _ = var_dict(v, "o", 1 if many else 0, "bush_a_call_list", "group_call_list", "bush")
    order = v.choice("order", [0, 1] if not v.symbolic else [0])
    ds = [d1, g1, g2, d2, suite, host]
    api = elem(v, "api", {}, [elem(v, "suites", {}, [
        elem(v, "suite", {"name": "bush"}, [elem(v, "group", {"name": "bush_a"})]),
        elem(v, "suite", {"name": "fruit"}, [elem(v, "group", {"name": "fruit_a"}),
                                             elem(v, "group", {"name": "fruit_b"})])])])
    root = elem(v, ROOT, {}, [api, elem(v, "var_dictionaries", {}, ds[::-1] if order else ds)])
    ask = v.choice("suite", ["fruit", "berry"] if not v.symbolic else ["fruit"])
    out = v.call(cd._retrieve_variable_list, root, ask, intent_type=None if intent == "required" else intent,
                 exclude_protected=excl)
    if intent == "banana":
        v.prove(isinstance(out.exc, cd.CCPPDatatableError), "an unknown kind of list is an error", lambda: repr(out))
        return
    v.prove(out.ok, "answered", lambda: repr(out))
    if not out.ok:
        return
    if intent == "host":
        facts = [(x, not (excl and p)) for x, _, p in fh]
    elif ask != "fruit":
        facts = []
    else:
        allowed = {"required": ["in", "out", "inout"], "input": ["in", "inout"], "output": ["out", "inout"]}[intent]
        facts = []
        for here in (f1, f2):
            chain = here + fs + fh
            for x, i, _ in here:
                prot = v.Or(False, *[v.eq(x, y) for y, _, p in chain if p])
                facts.append((x, v.And(i in allowed, v.Not(v.And(excl, prot)))))
    set_of(v, out.value, facts, "%s %s" % (ask, intent))


# ---------------------------------------------------------------- pretty printing
def squeeze(v, s):
    return [c for c in s if not v.isin(c, [" ", "\n", "\t"])]


@contract(["ccpp_datafile._format_line", "ccpp_datafile._indent_str"], conc=4000,
          cases=[(n, w) for n in (0, 1, 2, 3, 4, 5, 6, 7) for w in (-1, 4)] + [("words", w) for w in (-1, 1, 9, 20)])
def wrapped_lines(v, case):
    """wrapping changes white space only, and keeps lines within the width where words allow"""
    cd = v.repo("ccpp_datafile")
    n, width = case
    indent = v.choice("indent", [0, 1, 3] if not v.symbolic else [0, 1])
    more = v.choice("increase", [True, False])
    if n == "words":
        chars = list(v.choice("text", ["", "<a b=c>", "a  b", "one two three four five six seven", "'q r s t' \"u v",
                                       "<variable_name type=host kind=kind_phys>", " lead trail ", "a" * 30 + " b"]))
        if not v.symbolic and v.choice("random", [True, False]):
            k = v.choice("k", list(range(1, 30)))
            chars = [v.choice("c%d" % i, ["a", "b", " ", " ", "'", '"', "<", "="]) for i in range(k)]
    else:
        chars = [v.chars("c%d" % i, 1, " '\"ab<") for i in range(n)]
    text = v.join("", chars)
    if not v.symbolic and width > 0:
        width = v.choice("width", [1, 2, 4, 7, 10, 15, 25])
    out = v.call(cd._format_line, text, indent, width, increase_indent=more)
    v.prove(out.ok, "always formatted", lambda: "%r: %r" % (text, out))
    if not out.ok:
        return
    a, b = squeeze(v, text), squeeze(v, out.value)
    v.prove(len(a) == len(b) and v.And(True, *[v.eq(x, y) for x, y in zip(a, b)]), "only white space changes",
            lambda: "%r %r" % (text, out.value))
    v.prove(v.eq(out.value[-1], "\n"), "ends its line", lambda: repr(out.value))
    if not v.symbolic:
        lines = out.value[:-1].split("\n")
        v.prove(lines[0].startswith("  " * indent), "indented", lambda: repr(lines))
        v.prove([w for ln in lines for w in ln.split(" ") if w] == [w for w in text.split(" ") if w],
                "no word is cut", lambda: "%r %r" % (text, lines))
        if width <= 0:
            v.prove(len(lines) == 1, "not wrapped unless asked", lambda: repr(lines))
        elif '"' not in text and "'" not in text:
            for ln in lines:
                v.prove(len(ln) <= width or " " not in ln.strip(), "wrapped where possible",
                        lambda: "%r %d %r" % (text, width, lines))


def pieces(e):
    """text of the element as it must appear in the pretty print, without white space"""
    out = "<" + e.tag + "".join(" %s=%s" % (k, x) for k, x in e.attrib.items())
    text = e.text or ""
    if len(e) or e.text:
        out += ">" + "".join(pieces(c) for c in e) + text + "</" + e.tag + ">"
    else:
        out += " />"
    return "".join(out.split())


def tree(v, depth, tag):
    """random element: children or text"""
    e = ET.Element(v.choice(tag + "t", ["aa", "var", "suite", "host_files"]))
    for i in range(v.choice(tag + "na", [0, 1, 2])):
        e.set(v.choice("%sa%d" % (tag, i), ["name", "type", "units"]),
              v.choice("%sv%d" % (tag, i), ["host", "a b", "(x > 0) .and. (y<1)", "m s-1", "/path/to/f.F90", "'q'", "&"]))
    kind = v.choice(tag + "k", ["none", "text", "children"] if depth else ["none", "text"])
    if kind == "text":
        e.text = v.choice(tag + "x", ["file", "ccpp_constant_one:a ccpp_constant_one:b", "/a/b.F90", "a<b", "  ", "x & y"])
    elif kind == "children":
        for i in range(v.choice(tag + "n", [1, 2, 3])):
            e.append(tree(v, depth - 1, "%s_%d" % (tag, i)))
        if v.choice(tag + "ws", [True, False]):
            e.text = "\n  "
    return e


@contract(["ccpp_datafile.table_entry_pretty_print", "ccpp_datafile.datatable_pretty_print",
           "ccpp_datafile._format_line"], conc=6000, sym=False, cases=[-1, 10, 40])
def pretty_print(v, width):
    """all tags, attributes and texts appear, in order; only white space is changed"""
    cd = v.repo("ccpp_datafile")
    t = tree(v, 3, "r")
    out = v.call(cd.table_entry_pretty_print, t, v.choice("indent", [0, 2]), line_wrap=width)
    v.prove(out.ok and "".join(out.value.split()) == pieces(t), "only white space changes",
            lambda: "%s\n%r" % (ET.tostring(t), out))


# ---------------------------------------------------------------- the file
def canon(e):
    kids = [canon(c) for c in e]
    return (e.tag, sorted(e.attrib.items()), (e.text or "").strip(), kids)


@contract(["parse_tools.xml_tools.PrettyElementTree.write", "parse_tools.xml_tools.read_xml_file",
           "ccpp_datafile._read_datatable"], conc=4000, sym=False)
def written_and_read(v):
    """what is written to the file is what is read back"""
    cd, xt = v.repo("ccpp_datafile"), v.repo("parse_tools")
    t = tree(v, 3, "r")
    d = tempfile.mkdtemp()
    try:
        path = os.path.join(d, "datatable.xml")
        out = v.call(cd.PrettyElementTree(t).write, path)
        v.prove(out.ok, "written", lambda: "%s %r" % (ET.tostring(t), out))
        if out.ok:
            back = v.call(cd._read_datatable, path)
            v.prove(back.ok and canon(back.value) == canon(t), "read back",
                    lambda: "%s\n%s" % (ET.tostring(t), open(path).read()))
    finally:
        shutil.rmtree(d)


ACTIONS = ["host_files", "suite_files", "utility_files", "ccpp_files", "process_list", "module_list", "dependencies",
           "suite_list", "required_variables", "input_variables", "output_variables", "host_variables"]


def datatable(v):
    """a small data table as recorded by the generator, with its facts"""
    f = {}
    root = ET.Element(ROOT, {"version": "1.0"})
    files = ET.SubElement(root, "ccpp_files")
    for sec in ("utilities", "host_files", "suite_files"):
        e = ET.SubElement(files, sec)
        f[sec] = ["/p/%s_%d.F90" % (sec[:2], i) for i in range(v.choice("n" + sec, [0, 1, 2]))][::-1]
        for x in f[sec]:
            ET.SubElement(e, "file").text = x
    f["procs"], f["mods"], f["deps"], f["suites"], f["groups"], f["lists"] = [], [], [], [], {}, {}
    schemes = ET.SubElement(root, "schemes")
    for i in range(v.choice("nschemes", [0, 1, 2, 3])):
        e = ET.SubElement(schemes, "scheme", {"name": v.choice("sname%d" % i, ["s1", "s2"])})
        if v.choice("proc%d" % i, [True, False]):
            e.set("process", v.choice("pname%d" % i, ["adjusting", "setter"]))
            f["procs"].append(e.get("process") + "=" + e.get("name"))
        m = v.choice("module%d" % i, ["mod_a", "mod_b"])
        ET.SubElement(ET.SubElement(e, "run", {"module": m, "name": e.get("name")}), "call_list")
        f["mods"].append(m)
    suites = ET.SubElement(ET.SubElement(root, "api"), "suites")
    dicts = ET.SubElement(root, "var_dictionaries")

    def variables(tag, names, **attr):
        d = ET.SubElement(dicts, "var_dictionary", attr)
        vs = ET.SubElement(d, "variables")
        out = []
        for i, x in enumerate(names):
            if not v.choice("%s_has%d" % (tag, i), [True, True, False]):
                continue
            e = ET.SubElement(vs, "var", {"name": x})
            intent = v.choice("%s_in%d" % (tag, i), ["in", "out", "inout"])
            prot = v.choice("%s_pr%d" % (tag, i), [True, False])
            e.set("intent", intent)
            if prot:
                e.set("protected", "True")
            out.append((x, intent, prot))
        return out
    f["host"] = variables("h", ["temp", "pres", "wind"], name="my_host", type="host")
    variables("api", [], name="api", type="api", parent="my_host")
    for s in ["alpha", "beta"][:v.choice("nsuites", [0, 1, 2])]:
        f["suites"].append(s)
        e = ET.SubElement(suites, "suite", {"name": s, "filename": "/p/%s.xml" % s})
        sfacts = variables(s, ["wind"], name=s, type="suite", parent="api")
        f["lists"][s] = []
        for g in ["one", "two"][:v.choice(s + "ngroups", [0, 1, 2])]:
            full = s + "_" + g
            ET.SubElement(ET.SubElement(e, "group", {"name": full, "phase": "run"}), "timesplit", {"name": "x"})
            variables(full, ["temp"], name=full, type="group", parent=s)
            facts = variables(full + "c", ["temp", "rain", "wind"], name=full + "_call_list",
                              type="group_call_list", parent=s)
            f["lists"][s] += [(x, i, p or any(q for y, _, q in sfacts + f["host"] if y == x)) for x, i, p in facts]
    deps = ET.SubElement(root, "dependencies")
    for i in range(v.choice("ndeps", [0, 1, 2])):
        x = v.choice("dep%d" % i, ["/q/a.F90", "/q/b.F90"])
        ET.SubElement(deps, "dependency").text = x
        f["deps"].append(x)
    return root, f


@contract(["ccpp_datafile.datatable_report", "ccpp_datafile.DatatableReport"], conc=1200, sym=False, cases=ACTIONS)
def reports(v, action):
    """every report on a data table file, as from the command line"""
    cd = v.repo("ccpp_datafile")
    root, f = datatable(v)
    sep = v.choice("sep", [",", ";", " "])
    excl = v.choice("exclude", [True, False])
    suite = v.choice("suite", ["alpha", "beta", "gamma"])
    d = tempfile.mkdtemp()
    try:
        path = os.path.join(d, "datatable.xml")
        cd.PrettyElementTree(root).write(path)
        value = suite if action.endswith("variables") and action != "host_variables" else True
        out = v.call(cd.datatable_report, path, cd.DatatableReport(action, value), sep, exclude_protected=excl)
    finally:
        shutil.rmtree(d)
    allowed = {"required_variables": ["in", "out", "inout"], "input_variables": ["in", "inout"],
               "output_variables": ["out", "inout"]}
    want = {"host_files": f["host_files"], "suite_files": f["suite_files"], "utility_files": f["utilities"],
            "ccpp_files": f["utilities"] + f["host_files"] + f["suite_files"],
            "process_list": sorted(set(f["procs"])), "module_list": sorted(set(f["mods"])),
            "dependencies": sorted(set(f["deps"])), "suite_list": f["suites"],
            "host_variables": sorted(x for x, _, p in f["host"] if not (excl and p))}.get(action)
    if want is None:
        want = sorted({x for x, i, p in f["lists"].get(suite, []) if i in allowed[action] and not (excl and p)})
    v.prove(out.ok and out.value == sep.join(want), "exactly the recorded facts",
            lambda: "%s %s %s: %r, expected %r" % (action, suite, excl, out, want))


# ---------------------------------------------------------------- recording
class Trees:
    """assumed contract of xml.etree.ElementTree for the functions which record"""
    @staticmethod
    def SubElement(parent, tag):
        e = Elem(tag)
        parent.children.append(e)
        return e


def recording(v, f, *a, **k):
    cd = v.repo("ccpp_datafile")
    saved = cd.ET
    if v.symbolic:
        cd.ET = Trees
    try:
        return v.call(f, *a, **k)
    finally:
        cd.ET = saved


PROPS = ["intent", "local_name", "allocatable", "active", "default_value", "diagnostic_name",
         "diagnostic_name_fixed", "kind", "persistence", "polymorphic", "protected", "state_variable", "type",
         "units", "molar_mass", "advected", "top_at_one", "optional"]


class Variable(Stand):
    """assumed contract of Var"""
    def __init__(self, props, dims, source):
        self.props, self.dims, self.source = props, dims, source

    def get_prop_value(self, name):
        return self.props.get(name)

    def get_dimensions(self):
        return self.dims


class Source(Stand):
    def __init__(self, ptype, nm):
        self.ptype, self.name = ptype, nm


def same_text(v, a, b):
    if a is None or b is None:
        return a is b
    return v.eq(a, b)


@contract(["ccpp_datafile._new_var_entry"], conc=2500, cases=PROPS)
def recorded_variable(v, prop):
    """a variable is recorded with its standard name and every property which has a value"""
    cd = v.repo("ccpp_datafile")
    full = v.choice("full", [True, False])
    std = name(v, "std")
    props = {"standard_name": std, "local_name": name(v, "local"), "type": "real"}
    flag = prop in ("allocatable", "polymorphic", "protected", "state_variable", "advected", "top_at_one", "optional")
    if flag:
        props[prop] = v.choice("flag", [True, False, None])
    else:
        props[prop] = v.str("value", charset=LOW + " ()", pool=["in", "", "a b", "(x)"])
    dims = [name(v, "dim%d" % i) for i in range(v.choice("dims", [0, 1, 2]))]
    parent = elem(v, "variables")
    out = recording(v, cd._new_var_entry, parent, Variable(props, dims, Source("SCHEME", "Abc_Run")), full_entry=full)
    v.prove(out.ok and len(parent) == 1, "one entry", lambda: repr(out))
    if not (out.ok and len(parent) == 1):
        return
    e = parent[0]
    v.prove(e.tag == "var" and same_text(v, e.get("name"), std), "under its standard name", lambda: repr(e.attrib))
    for p in PROPS:
        x = props.get(p)
        want = None
        if x and (full or p in ("intent", "local_name")):
            want = "True" if x is True else x
        v.prove(same_text(v, e.get(p), want), "the value of %s" % p, lambda: "%r %r" % (e.attrib, want))
    tags = [c.tag for c in e]
    if not full:
        v.prove(not tags, "no more", lambda: repr(tags))
        return
    v.prove(tags == (["dimensions"] if dims else []) + ["source_type", "source_name"], "dimensions and source",
            lambda: repr(tags))
    if dims and tags[:1] == ["dimensions"]:
        v.prove(v.eq(e[0].text, v.join(" ", dims)), "the dimensions, in order", lambda: repr(e[0].text))
    v.prove(e.find("source_type").text == "scheme" and e.find("source_name").text == "abc_run", "the source",
            lambda: "%r" % [c.text for c in e])


@contract(["ccpp_datafile._add_generated_files", "ccpp_datafile._add_dependencies"], conc=1500)
def recorded_files(v):
    """every generated file and dependency is recorded, in its category"""
    cd = v.repo("ccpp_datafile")

    def some(tag):
        return [v.str("%s%d" % (tag, i), charset=LOW + "/.", nonempty=True, pool=["/a/x.F90", "b.F90"])
                for i in range(v.choice("n" + tag, [0, 1, 2]))]
    host, suite, sdeps, hdeps = some("host"), some("suite"), some("sdep"), some("hdep")
    kinds, src = name(v, "kinds"), "/src"
    root = elem(v, ROOT)
    out = recording(v, cd._add_generated_files, root, host, suite, kinds, src)
    out2 = recording(v, cd._add_dependencies, root, sdeps, hdeps)
    v.prove(out.ok and out2.ok and [c.tag for c in root] == ["ccpp_files", "dependencies"], "recorded",
            lambda: "%r %r" % (out, out2))
    if not (out.ok and out2.ok and len(root) == 2):
        return
    utils = [kinds] + [os.path.join(src, x) for x in ("ccpp_constituent_prop_mod.F90", "ccpp_hashable.F90",
                                                      "ccpp_hash_table.F90")]
    for e, tag, inner, want in [(root[0].find("utilities"), "utilities", "file", utils),
                                (root[0].find("host_files"), "host_files", "file", host),
                                (root[0].find("suite_files"), "suite_files", "file", suite),
                                (root[1], "dependencies", "dependency", None)]:
        got = [(c.tag, c.text) for c in e]
        if want is None:
            v.prove(len(got) == len(hdeps) + len(sdeps) and
                    v.And(True, *[v.Or(False, *[v.eq(x, y) for _, y in got]) for x in hdeps + sdeps]),
                    "every dependency", lambda: "%r" % (got,))
        else:
            v.prove(len(got) == len(want) and v.And(True, *[v.And(t == inner, v.eq(x, y))
                                                            for (t, x), y in zip(got, want)]),
                    "the files of %s" % tag, lambda: "%r %r" % (got, want))
