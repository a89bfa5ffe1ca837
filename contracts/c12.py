"""C12: a metadata file is read exactly or rejected, naming file and line."""
import re

from pyvc.harness import contract

LINE = [chr(c) for c in range(32, 127)] + ["\t"]
FILE = "some_dir/abc_mod.meta"
ID = "[A-Za-z][A-Za-z0-9_]*"
BLANK = r"|[ \t]*[#;][ -~\t]*"


def header(word):
    return (r"[ \t]*\[[ \t]*" + "".join("[%s%s]" % (c, c.upper()) if c.isalpha() else c for c in word)
            + r"[ \t]*\][ \t]*([#;][ -~\t]*|)")


TABLE, ARG = header("ccpp-table-properties"), header("ccpp-arg-table")
VAR = r"\[[ \t]*" + ID + r"[ \t]*\]"
LINES = ["", " ", "# x", "  ; x = y", "\t#", "x # y", "[ x ]", "[x]", "[ x] ", " [ x ]", "[ 3x ]", "[]", "[ x y ]",
         "[ x(:) ]", "[ x(1,:) ]", "[x", "x]", "name = a", "a = b = c", "=", "a=", "hello", "a | b", "a = b | c = d",
         "a = b |", "|", "[ccpp-table-properties]", "[ ccpp-arg-table ]", "[CCPP-ARG-TABLE] # x",
         "[ccpp-table-properties] x", "[ccpp-arg-table] name = x", "[ ccpp-arg-table", "ccpp-arg-table", "_a = 3",
         "  [ccpp-table-properties]  ", "#[ccpp-arg-table]", "[ x ] # y", "[ccpp_arg_table]"]


class Env:
    """assumed contract of the run environment: nothing is logged"""
    verbose, logger = False, None


def message(exc):
    return str(exc)


# ---------------------------------------------------------------- classification of lines
@contract(["metadata_table.blank_metadata_line", "metadata_table.MetadataTable.table_start",
           "metadata_table.MetadataSection.header_start", "metadata_table.MetadataSection.variable_start"],
          conc=4000)
def kinds_of_lines(v):
    """each line starts a table, a section or a variable, is blank, or is none of these"""
    mt, po = v.repo("metadata_table"), v.repo("parse_tools")
    s = v.str("line", charset=LINE, pool=LINES)
    blank, table = mt.blank_metadata_line(s), mt.MetadataTable.table_start(s)
    arg = mt.MetadataSection.header_start(s)
    v.prove(v.Iff(blank, v.matches(s, BLANK)), "blank iff empty or a comment", lambda: "%r: %s" % (s, blank))
    v.prove(v.Iff(table, v.matches(s, TABLE)), "starts a table iff [ccpp-table-properties]",
            lambda: "%r: %s" % (s, table))
    v.prove(v.Iff(arg, v.matches(s, ARG)), "starts a section iff [ccpp-arg-table]", lambda: "%r: %s" % (s, arg))
    v.prove(mt.blank_metadata_line(None) and not mt.MetadataTable.table_start(None)
            and not mt.MetadataSection.header_start(None), "the end of the file starts nothing")


@contract(["metadata_table.MetadataSection.variable_start"], conc=3000)
def variable_lines(v):
    """[ name ] starts the variable <name>; nothing without brackets does"""
    mt, po = v.repo("metadata_table"), v.repo("parse_tools")
    pobj = po.ParseObject(FILE, [])
    form = v.choice("form", ["plain", "any", "none"])
    start = mt.MetadataSection.variable_start
    if form == "none":
        v.prove(start(None, pobj) is None, "the end of the file starts no variable")
        return
    if form == "plain":
        n = v.str("name", charset="abcXYZ_019", nonempty=True, pool=["x", "a_1", "X9", "_a", "9", "a" * 31])
        a, b = v.choice("left", ["", " ", "  "]), v.choice("right", ["", " "])
        s = v.join("", ["[", a, n, b, "]"])
        got = start(s, pobj)
        v.prove(v.Iff(got is not None, v.matches(n, ID)), "[ name ] starts a variable",
                lambda: "%r: %r" % (s, got))
        if got is not None:
            v.prove(v.eq(got, n), "the variable has the name as written", lambda: "%r: %r" % (s, got))
        return
    s = v.str("line", charset=LINE, pool=LINES)
    v.assume(v.Not(v.matches(s, r"\[[ -~\t]*\]")))
    v.prove(start(s, pobj) is None, "nothing else starts a variable", lambda: "%r" % (s,))


def words(v, tag, without, pool, most=2):
    """any text of up to <most> words, with blanks around them"""
    cs = [c for c in LINE if c not in " \t" and c not in without]
    out = [v.choice("lead" + tag, ["", "  ", "\t"] if most > 1 or not v.symbolic else ["", " "][:1 + most])]
    for i in range(max(most, 1)):
        if i:
            out.append(v.choice("mid" + tag, [" ", "   "] if not v.symbolic else [" "]))
        out.append(v.str("w%s%d" % (tag, i), charset=cs, pool=pool, nonempty=bool(i)))
    out.append(v.choice("trail" + tag, ["", " "] if most or not v.symbolic else [""]))
    return v.join("", out)


@contract(["metadata_table._parse_config_line"], conc=3000, cases=[1, 2, 3])
def properties_of_a_line(v, n):
    """name = value, several separated by bars; a part without = is rejected, with its place"""
    mt, po = v.repo("metadata_table"), v.repo("parse_tools")
    ctx = po.ParseContext(linenum=6, filename=FILE)
    parts, want, bad = [], [], False
    for i in range(n):
        k = words(v, "key%d" % i, "=|", ["name", "units", "x", "", "(a)"], 2 - (n > 1) - (n > 2))
        if i == 0:
            v.assume(v.Not(v.matches(k, r"[ \t]*([#;][ -~\t]*|)")))
        if v.choice("form%d" % i, ["pair", "pair", "word"] if not v.symbolic else ["pair", "word"]) == "word":
            parts.append(k)
            bad = True
            continue
        x = words(v, "value%d" % i, "|", ["real", "a=b", "", "(a)", "=", "#"], 2 - (n > 1) - (n > 2))
        parts.append(v.join("", [k, "=", x]))
        want.append((k, x))
    s = parts[0]
    for p in parts[1:]:
        s = v.join("", [s, "|", p])
    out = v.call(mt._parse_config_line, s, ctx)
    v.prove(out.ok == (not bad), "read iff every part is a pair", lambda: "%r: %r" % (s, out))
    if bad and not out.ok:
        v.prove(isinstance(out.exc, po.CCPPError) and (FILE + ":7") in message(out.exc) if not v.symbolic else
                isinstance(out.exc, po.CCPPError), "the error names the line", lambda: "%r: %r" % (s, out))
    elif out.ok:
        got = out.value
        v.prove(len(got) == n and v.And(*[v.And(v.eq(a[0].strip(), b[0].strip()), v.eq(a[1].strip(), b[1].strip()))
                                          for a, b in zip(got, want)]),
                "the pairs are those of the line, in order", lambda: "%r: %r" % (s, got))
    v.prove(mt._parse_config_line(None, ctx) == [] and mt._parse_config_line("", ctx) == []
            and mt._parse_config_line("# a = b", ctx) == [], "blank and comment lines have no properties")


@contract(["parse_object.ParseObject.next_line", "parse_object.ParseObject.curr_line"], conc=2500, cases=[1, 2, 3, 4])
def logical_lines(v, n):
    """lines come in order, a backslash joins a line with the next, trailing blanks go"""
    po = v.repo("parse_tools")
    lines, want, cur, at = [], [], "", None
    for i in range(n):
        t = v.join("", [v.chars("t%d" % i, 1, "ab =[#") if not v.symbolic or i < 2 else "t%d" % i,
                        v.choice("rest%d" % i, ["", "x", "y z"] if not v.symbolic else ["x"])]) \
            if v.choice("empty%d" % i, [False, False, True] if not v.symbolic else [False]) is False else ""
        joined = v.choice("joined%d" % i, [False, True])
        tail = v.choice("tail%d" % i, ["", "  "] if not v.symbolic else [""])
        lines.append(v.join("", [t, "\\"]) + tail if joined else v.join("", [t, tail]))
        at = i if at is None else at
        cur = v.join("", [cur, t if joined else (t.rstrip() if not v.symbolic else t)])
        if not joined or i == n - 1:
            want.append((cur, at))
            cur, at = "", None
    pobj = po.ParseObject(FILE, lines)
    got = []
    line, num = pobj.curr_line()
    while line is not None and len(got) <= n:
        again, num2 = pobj.curr_line()
        v.prove(v.And(v.eq(again, line), num2 == num), "reading the current line again changes nothing",
                lambda: "%r" % (lines,))
        got.append((line, num))
        line, num = pobj.next_line()
    v.prove(len(got) == len(want) and v.And(*[v.And(v.eq(a[0], b[0]), a[1] == b[1]) for a, b in zip(got, want)]),
            "the lines of the file, joined where continued", lambda: "%r -> %r, expected %r" % (lines, got, want))


# ------------------------------------------------------------------ whole files
class File:
    def __init__(self, v, lines):
        self.v, self.lines = v, lines

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def readlines(self):
        return [self.v.join("", [x, "\n"]) for x in self.lines]

    def __iter__(self):
        return iter(self.readlines())


class NoSuggestions:
    """assumed contract of difflib: suggests something or nothing; what it suggests is not used"""
    @staticmethod
    def get_close_matches(*a, **k):
        return []


def parse(v, lines, ddts=(), suggest=True):
    mt = v.repo("metadata_table")
    saved = {k: vars(mt)[k] for k in ("open", "difflib") if k in vars(mt)}
    mt.open = lambda name, mode="r", **k: File(v, lines)
    if not suggest and "difflib" in saved:
        mt.difflib = NoSuggestions
    try:
        return v.call(mt.parse_metadata_file, FILE, list(ddts), Env())
    finally:
        for k in ("open", "difflib"):
            if k in saved:
                setattr(mt, k, saved[k])
            elif k in vars(mt):
                delattr(mt, k)


VPROPS = ["local_name", "standard_name", "long_name", "units", "dimensions", "type", "kind", "state_variable",
          "protected", "allocatable", "diagnostic_name", "diagnostic_name_fixed", "default_value", "persistence",
          "active", "polymorphic", "top_at_one", "optional", "target", "intent", "advected", "molar_mass",
          "constituent"]


def contents(tables):
    """tables as read, as plain data"""
    return [(t.table_name, t.table_type, t.dependencies,
             [(s.title, s.header_type, s.module, s.process_type,
               [[x.get_prop_value(p) for p in VPROPS] for x in s.variable_list()]) for s in t.sections()])
            for t in tables]


BASE = ["[ccpp-table-properties]", "  name = abc", "  type = scheme", "[ccpp-arg-table]", "  name = abc_run",
        "  type = scheme", "[ x ]", "  standard_name = xx", "  units = m", "  dimensions = (nn)", "  type = real",
        "  intent = in", "[ y ]", "  standard_name = yy", "  units = K", "  dimensions = ()", "  type = integer",
        "  intent = out"]


@contract(["metadata_table.parse_metadata_file", "metadata_table.MetadataTable.__init_from_file",
           "metadata_table.MetadataSection.__init_from_file", "metadata_table.MetadataSection.parse_variable"],
          conc=1500, cases=list(range(len(BASE) + 1)), sym=False,
          note="one file of one table with two variables; the line is any text, at any place")
def an_extra_line(v, at):
    """a comment or blank line anywhere changes nothing; a line which is neither a pair nor
    in brackets is rejected wherever it is"""
    po = v.repo("parse_tools")
    kind = v.choice("kind", ["comment", "junk"])
    if kind == "comment":
        s = v.choice("blank", ["", "  ", "\t", "#", " ;", "\t#"])
        if s.strip():
            s = v.join("", [s, words(v, "text", "\\", ["x", "[", "[ccpp-arg-table]", "a=b", "name"], 1)])
    else:
        if v.symbolic or v.choice("words", [True, False]):
            s = words(v, "line", "\\=[", ["x", "]", "#x", "hello", "|", "", "{"], 1)
        else:
            s = v.str("line", charset=[c for c in LINE if c not in "\\=["],
                      pool=[x for x in LINES if not set(x) & set("\\=") and not re.fullmatch(VAR, x)])
        v.assume(v.Not(v.matches(s, r"[ \t]*([#;][ -~\t]*|)")))
    out = parse(v, BASE[:at] + [s] + BASE[at:])
    if kind == "comment":
        v.prove(out.ok, "a comment line is accepted anywhere", lambda: "%r at %d: %r" % (s, at, out.exc))
        if out.ok:
            want = contents(parse(v, BASE).value)
            got = contents(out.value)
            v.prove(got == want, "comment lines change nothing", lambda: "%r at %d: %r" % (s, at, got))
        return
    v.prove(not out.ok and isinstance(out.exc, (po.CCPPError, po.ParseInternalError)), "a line which fits no rule is rejected",
            lambda: "%r at %d: %r" % (s, at, out))
    if not v.symbolic and not out.ok:
        # a header out of place ends what comes before it, which may then be incomplete
        near = [str(at + 1)] + ([r"\d+"] if "[" in s else [])
        v.prove(any(re.search(re.escape(FILE) + ":" + k + r"\b", message(out.exc)) for k in near),
                "the error names the file and the line", lambda: "%r at %d: %r" % (s, at, out.exc))


@contract(["metadata_table.MetadataSection.parse_variable", "metavar.Var.get_prop"], conc=2500,
          cases=["first", "later", "last"], paths=30000)
def property_names(v, where):
    """a property with an unknown name, or one given twice, is rejected"""
    po = v.repo("parse_tools")
    n = v.str("name", charset="abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789", nonempty=True,
              pool=VPROPS + ["foo", "Units", "LONG_NAME", "intent_", "name", "rank", "ddt_type",
                             "type", "module", "x", "horizontal", "protected", "valid_values"])
    at = {"first": 7, "later": 9, "last": 12}[where]
    out = parse(v, BASE[:at] + [v.join("", ["  ", n, " = T"])] + BASE[at:])
    low = v.lower(n.strip())
    # <T> is a legal value of these and of no other property
    legal = v.isin(low, ["long_name", "kind", "state_variable", "protected", "allocatable", "active",
                         "polymorphic", "top_at_one", "optional", "target", "advected", "constituent"])
    v.assume(v.Not(v.isin(low, ["default_value", "diagnostic_name", "diagnostic_name_fixed"])))
    v.prove(v.Iff(out.ok, legal), "accepted iff the property exists, once and with a legal value",
            lambda: "%r: %r" % (n, out))
    if not out.ok:
        v.prove(isinstance(out.exc, po.CCPPError), "reported as an error of the input", lambda: "%r: %r" % (n, out))
        if not v.symbolic:
            v.prove(re.search(re.escape(FILE) + ":(7|9|10|%d|13)\\b" % (at + 1), message(out.exc)),
                    "the error names the file and the line", lambda: "%r: %r" % (n, out.exc))


@contract(["metadata_table.MetadataSection.parse_variable"], conc=1500)
def property_values(v):
    """free-text values are kept exactly, without the blanks around them"""
    x = words(v, "value", "|\\", ["a", "x=y", "#", "'", "[x]", "(a,b)", "a;b", "A", "="])
    v.assume(v.Not(v.matches(x, "[ \t]*")))
    p = v.choice("prop", ["long_name", "active", "kind"])
    out = parse(v, BASE[:8] + [v.join("", ["  ", p, v.choice("eq", ["=", " = "]), x])] + BASE[8:])
    v.prove(out.ok, "accepted", lambda: "%r: %r" % (x, out.exc))
    if out.ok:
        var = out.value[0].sections()[0].variable_list()[0]
        got = var.get_prop_value(p)
        v.prove(v.eq(got, x.strip()), "the value is the text", lambda: "%r: %r" % (x, got))


@contract(["metadata_table.MetadataTable.__init_from_file", "metadata_table.MetadataSection.__init_from_file",
           "metadata_table.MetadataSection.section_table_mismatch"], conc=2000, paths=30000)
def names_and_types(v):
    """table and section: name and type are required, legal and agree"""
    po = v.repo("parse_tools")
    part = v.choice("part", ["table name", "table type", "section name", "section type"])
    if part.endswith("type"):
        x = v.join("", [v.choice("word", ["", "schem", "scheme", "hos", "host", "ddt", "module", "local", "none"]),
                        v.choice("more", ["", None]) or v.chars("char", 1, "etsx_E")])
    else:
        x = v.join("", [v.choice("word", ["", "ab", "abc", "abc_", "abc_ru", "abc_run", "abc_timestep_ini",
                                          "abc_timestep", "abc_finaliz", "abcd_run", "run"]),
                        v.choice("more", ["", None]) or v.chars("char", 1, "cnte_lx")])
    at = {"table name": 1, "table type": 2, "section name": 4, "section type": 5}[part]
    drop = v.choice("drop", [False, True])
    key = part.split()[1]
    lines = list(BASE)
    if drop:
        del lines[at]
        legal = False
    else:
        lines[at] = v.join("", ["  ", key, " = ", x])
        if part == "table name":
            legal = v.eq(x, "abc")
        elif part == "section name":
            legal = v.isin(x, ["abc", "abc_run", "abc_init", "abc_initial", "abc_initialize", "abc_final",
                               "abc_finalize", "abc_timestep_init", "abc_timestep_initial",
                               "abc_timestep_initialize", "abc_timestep_final", "abc_timestep_finalize",
                               "abc_register"])
        else:
            legal = v.eq(x, "scheme")
    out = parse(v, lines, suggest=not v.symbolic)
    v.prove(v.Iff(out.ok, legal), "accepted iff name and type are there and agree", lambda: "%r: %r" % (lines, out))
    if not out.ok:
        v.prove(isinstance(out.exc, po.CCPPError), "reported as an error of the input",
                lambda: "%r: %r" % (lines, out))
        if not v.symbolic:
            v.prove(FILE + ":" in message(out.exc), "the error names the file and a line",
                    lambda: "%r: %r" % (lines, out.exc))
    elif out.ok:
        t = out.value[0]
        v.prove(v.And(v.eq(t.table_name, "abc"), v.eq(t.table_type, "scheme")), "table name and type as written")
        if part == "section name":
            v.prove(v.eq(t.sections()[0].title, x), "section name as written")


@contract(["metadata_table.parse_metadata_file", "metavar.VarDictionary.add_variable"], conc=2000, paths=30000)
def duplicates(v):
    """two tables with one name, two variables with one standard or local name"""
    po = v.repo("parse_tools")
    what = v.choice("what", ["table", "standard", "local"])
    pool = ["abc", "abd", "x", "X", "xx", "XX", "y", "xy", "zz"]
    if what == "table":
        n = v.str("name", charset="abcdx_", nonempty=True, pool=pool)
        v.assume(v.matches(n, "[a-zA-Z][a-zA-Z_]*"))
        more = [x.replace("abc", "@") for x in BASE]
        more = [v.join("", [x.split("@")[0], n, x.split("@")[1]]) if "@" in x else x for x in more]
        dup = v.eq(n, "abc")
        lo, hi = len(BASE) + 1, len(BASE) + 3
        out = parse(v, BASE + more)
    elif what == "standard":
        n = v.str("name", charset="abcdxXyY_", nonempty=True, pool=pool)
        v.assume(v.matches(n, "[a-zA-Z][a-zA-Z_]*"))
        more = ["[ z ]", v.join("", ["  standard_name = ", n])] + BASE[14:]
        dup = v.isin(v.lower(n), ["xx", "yy"])
        lo, hi = len(BASE) + 1, len(BASE) + 2
        out = parse(v, BASE + more)
    else:
        n = v.str("name", charset="abcdxXyY_", nonempty=True, pool=pool)
        v.assume(v.matches(n, "[a-zA-Z][a-zA-Z_]*"))
        more = [v.join("", ["[ ", n, " ]"]), "  standard_name = zz"] + BASE[14:]
        dup = v.isin(v.lower(n), ["x", "y"])
        lo, hi = len(BASE) + 1, len(BASE) + 2
        out = parse(v, BASE + more)
    v.prove(v.Iff(out.ok, v.Not(dup)), "rejected iff it is a duplicate", lambda: "%s %r: %r" % (what, n, out))
    if not out.ok:
        v.prove(isinstance(out.exc, po.CCPPError), "reported as an error of the input",
                lambda: "%s %r: %r" % (what, n, out))
        if not v.symbolic:
            v.prove(any("%s:%d" % (FILE, k) in message(out.exc) for k in range(lo, hi + 1)),
                    "the error names the file and the line", lambda: "%s %r: %r" % (what, n, out.exc))


# --------------------------------------------------------------- bounded: random files
DEFAULTS = {"long_name": None, "kind": None, "state_variable": False, "protected": False, "allocatable": False,
            "diagnostic_name": "", "diagnostic_name_fixed": "", "default_value": "", "persistence": "timestep",
            "active": ".true.", "polymorphic": False, "top_at_one": False, "optional": False, "target": False,
            "intent": None, "advected": False, "molar_mass": 0.0, "constituent": False}


def a_variable(v, tag, n, scheme, ddts):
    """(lines, expected values)"""
    name = v.choice("n" + tag, ["x", "Temp", "q_1", "im"]) + n
    std = v.choice("s" + tag, ["air_temperature", "Some_Name", "xx"]) + "_" + n
    props = [("standard_name", std, std.lower())]
    props.append(("units", *[v.choice("u" + tag, ["m s-1", "1", "none", "kg kg-1", "K"])] * 2))
    rank = v.choice("r" + tag, [0, 1, 2, 3])
    dims, want = [], []
    for j in range(rank):
        d = v.choice("d%s%d" % (tag, j), ["nn", "horizontal_dimension", "1:nn", "ccpp_constant_one:kk", ":", "4"])
        dims.append(d)
        want.append(d if ":" in d else "ccpp_constant_one:" + d)
    sep = v.choice("c" + tag, [",", ", ", " , "])
    props.append(("dimensions", "(" + sep.join(dims) + ")", want))
    t = v.choice("t" + tag, ["real", "integer", "logical", "character", "complex"] + list(ddts))
    props.append(("type", t, t))
    exp, k = dict(DEFAULTS), None
    if t in ddts:
        exp["kind"] = t
    else:
        exp["kind"] = {"real": "kind_phys", "complex": "kind_phys"}.get(t, "")
        k = v.choice("k" + tag, [None, "kind_phys", "dp"] if t != "character" else ["len=16", "len=*"])
        if k:
            props.append(("kind", k, k))
    if scheme or v.choice("i" + tag, [False, False, True]):
        i = v.choice("ii" + tag, ["in", "out", "inout"])
        props.append(("intent", i, i))
    for p, vals in (("long_name", ["some text, 'x'", "a # b", "a = b"]), ("state_variable", ["true", ".False."]),
                    ("allocatable", ["T", "false"]), ("active", ["(flag > 1)", ".true."]),
                    ("optional", ["True", "F"]), ("advected", [".true.", "False"]), ("molar_mass", ["28.9", "0"]),
                    ("persistence", ["run", "timestep"]), ("top_at_one", ["true", "false"]),
                    ("default_value", ["1", "42"] if t == "integer" and exp["kind"] == "" and not k else [])):
        if vals and v.choice(p[:4] + tag, [False] * 5 + [True]):
            x = v.choice("v" + p[:4] + tag, vals)
            y = x
            if isinstance(DEFAULTS[p], bool):
                y = x.lower().strip(".") in ("t", "true")
            elif p == "molar_mass":
                y = float(x)
            props.append((p, x, y))
    # order of the properties
    for k in range(len(props) - 1, 0, -1):
        j = v.choice("o%s%d" % (tag, k), [k, k, 0])
        props[k], props[j] = props[j], props[k]
    exp.update({p: y for p, x, y in props})
    exp["local_name"] = name
    if exp["long_name"] is None:
        exp["long_name"] = long_name(exp["standard_name"], exp["units"])
    exp["type"] = t
    lines, cur = ["[" + v.choice("b" + tag, ["", " "]) + name + v.choice("e" + tag, ["", " "]) + "]"], ""
    for k, (p, x, y) in enumerate(props):
        p = v.choice("case", [p, p, p.upper(), p.title()])
        item = p + v.choice("eq", ["=", " = ", "  =  "]) + x
        if cur and v.choice("bar", [False, False, True]):
            cur = cur + v.choice("barsep", ["|", " | "]) + item
        else:
            if cur:
                lines.append(cur)
            cur = v.choice("ind", ["", "  ", "\t"]) + item
    lines.append(cur)
    return lines, exp


def long_name(std, units):
    """the documented default: the standard name as a sentence, followed by the units"""
    text = std[0].upper() + std[1:].replace("_", " ")
    return text.replace(" p ", ".")


def a_file(v):
    """(lines, expected tables, starts of variables)"""
    out, exp, ddts, starts = [], [], [], []
    for i in range(v.choice("tables", [0, 1, 1, 2, 3])):
        kind = v.choice("kind%d" % i, ["scheme", "host", "module", "ddt"])
        name = "tab%d" % i
        out.append(v.choice("th", ["[ccpp-table-properties]", "[ ccpp-table-properties ]", "[CCPP-Table-Properties] # x"]))
        head = ["  name = " + name, "  type = " + kind]
        if v.choice("headswap", [False, True]):
            head.reverse()
        deps = v.choice("deps%d" % i, [[], [], ["a.F90"], ["a.F90", "b/c.F90"], None])
        if deps is None:
            head.append("  dependencies = " + v.choice("none", ["none", "None"]))
        elif deps:
            if v.choice("depl", [False, True]):
                head.append("  dependencies = " + ", ".join(deps))
            else:
                head.extend("  dependencies = " + d for d in deps)
        out.extend(head)
        secs = []
        n = v.choice("secs%d" % i, [0, 1, 2, 3] if kind == "scheme" else [1, 1, 0])
        for j in range(n):
            title = name + ["_init", "_run", "_FINALIZE"][j] if kind == "scheme" else name
            out.append(v.choice("sh", ["[ccpp-arg-table]", "  [ ccpp-arg-table ]", "[CCPP-ARG-TABLE]"]))
            head = ["  name = " + title, "  type = " + kind]
            mod = "abc_mod"
            if v.choice("mod", [False, False, True]):
                mod = "other"
                head.append("module = other")
            proc = "UNKNOWN"
            if kind == "scheme" and v.choice("proc", [False, False, True]):
                proc = "radiation"
                head.append("process = radiation")
            out.extend(head)
            vs = []
            for k in range(v.choice("vars", [0, 1, 2])):
                starts.append(len(out))
                lines, e = a_variable(v, "%d%d%d" % (i, j, k), "%d%d%d" % (i, j, k), kind == "scheme", ddts)
                out.extend(lines)
                vs.append(e)
            secs.append((title, kind, mod, proc, vs))
        if kind == "ddt":
            ddts.append(name)
        exp.append((name, kind, deps or [], secs))
    return out, exp, starts


@contract(["metadata_table.parse_metadata_file", "metadata_table.MetadataTable", "metadata_table.MetadataSection",
           "metadata_table.MetadataSection.parse_variable", "metavar.Var.__init__", "metavar.Var.get_prop_value"],
          sym=False, conc=6000, budget=45,
          note="bounded: random files of up to three tables, three sections and two variables each, with comments, "
               "blank lines, bars, capitals and continuation lines")
def random_files(v):
    import os
    lines, exp, starts = a_file(v)
    if v.choice("noise", [False, True]):
        new = []
        for x in lines:
            if v.choice("cm", [False] * 4 + [True]):
                new.append(v.choice("cmt", ["", "   ", "# [ x ]", "  ; a = b", "#"]))
            if "=" in x and v.choice("cont", [False] * 9 + [True]):
                a, b = x.split("=", 1)
                new.extend([a + "\\", "=" + b])
            else:
                new.append(x + v.choice("trail", ["", "  "]))
        lines = new
    out = parse(v, lines)
    v.prove(out.ok, "a well-formed file is accepted", lambda: "%s\n%r" % ("\n".join(lines), out.exc))
    if not out.ok:
        return
    got = contents(out.value)
    want = []
    for name, kind, deps, secs in exp:
        want.append((name, kind, [os.path.abspath(os.path.join(os.path.dirname(FILE), d)) for d in deps],
                     [(t, k, m, p, [[e[q] for q in VPROPS] for e in vs]) for t, k, m, p, vs in secs]))
    for a in got + want:
        for s in a[3]:
            for x in s[4]:
                x[VPROPS.index("long_name")] = re.sub(r"\W+", " ", str(x[VPROPS.index("long_name")])).strip().lower() \
                    if x[VPROPS.index("long_name")] is not None else None
    v.prove(got == want, "exactly the tables, sections, variables and properties of the file, in order",
            lambda: "%s\ngot %r\nexpected %r" % ("\n".join(lines), got, want))


BAD_VALUES = {"standard_name": ["", "3x", "a b", "x-y"], "units": ["", "m/s*", "m s--1"], "dimensions": ["", "nn", "(nn", "(a,,b)"],
              "type": ["", "reel", "unknown_t"], "intent": ["", "In", "into"], "protected": ["maybe", ""],
              "optional": ["2", "yes"], "persistence": ["always", "Run"], "molar_mass": ["-1", "x"],
              "allocatable": ["tru"], "advected": ["x"]}


@contract(["metadata_table.parse_metadata_file", "metadata_table.MetadataSection.parse_variable",
           "metavar.Var.__init__"], sym=False, conc=6000, budget=40,
          note="bounded: one defect in a random file")
def random_defects(v):
    po = v.repo("parse_tools")
    lines, exp, starts = a_file(v)
    if not starts:
        return
    lines = [x for x in lines]
    at = v.choice("which", starts)
    end = at + 1
    while end < len(lines) and not lines[end].lstrip().startswith("["):
        end += 1
    body = lines[at + 1:end]
    keys = [[p.split("=")[0].strip().lower() for p in x.split("|")] for x in body]
    what = v.choice("what", ["missing", "unknown", "value", "twice", "junk", "header", "dup local", "dup std"])
    lo, hi = at + 1, end
    if what == "missing":
        p = v.choice("p", ["standard_name", "units", "dimensions", "type", "intent"])
        ks = [i for i, k in enumerate(keys) if p in k]
        is_ddt = any(x.split("=", 1)[1].strip().startswith("tab") for y in body for x in y.split("|")
                     if x.split("=")[0].strip().lower() == "type")
        host = [t for t in exp for s in t[3] for y in s[4] if y["local_name"] == lines[at].strip("[] ")][0][1] != "scheme"
        if not ks or (p == "units" and is_ddt) or (p == "intent" and host):
            return
        i = ks[0]
        rest = [x for x, k in zip(body[i].split("|"), keys[i]) if k != p]
        lines[at + 1 + i:at + 2 + i] = ["|".join(rest)] if rest else []
        hi = end
    elif what == "unknown":
        i = v.choice("i", list(range(at + 1, end + 1)))
        lines.insert(i, "  " + v.choice("u", ["foo", "unit", "long-name", "kinds", "module"]) + " = 1")
        lo = hi = i + 1
    elif what == "value":
        p = v.choice("p", sorted(BAD_VALUES))
        x = v.choice("x", BAD_VALUES[p])
        ks = [i for i, k in enumerate(keys) if p in k]
        if ks:
            i = ks[0]
            if len(keys[i]) > 1:
                return
            lines[at + 1 + i] = "  " + p + " = " + x
            lo, hi = at + 1, at + 2 + i
        else:
            lines.insert(end, "  " + p + " = " + x)
            lo, hi = at + 1, end + 1
    elif what == "twice":
        p = v.choice("p", sorted({k for y in keys for k in y}))
        src = [x for y in body for x in y.split("|") if x.split("=")[0].strip().lower() == p][0]
        lines.insert(end, src.rstrip("\\"))
        lo, hi = at + 1, end + 1
    elif what == "junk":
        i = v.choice("i", list(range(len(lines) + 1)))
        lines.insert(i, v.choice("j", ["hello", "[ x", "x ]", "subroutine foo()", "[ 1x ]", "[ a b ]", "[]",
                                       "[ccpp-arg-tables]", "[ x ] y"]))
        lo = hi = i + 1
    elif what == "header":
        hs = [i for i, x in enumerate(lines) if re.match(ARG + "$", x) or re.match(TABLE + "$", x)]
        i = v.choice("i", hs)
        lines[i] = lines[i].split("#")[0] + v.choice("j", [" x", " name = y", "]"])
        lo, hi = 1, len(lines) + 1
    else:
        names = [(t[0], s[0], y["local_name"], y["standard_name"]) for t in exp for s in t[3] for y in s[4]]
        me = [n for n in names if n[2] == lines[at].strip("[] ")][0]
        new = ["[ " + (me[2] if what == "dup local" else "new_one") + " ]",
               "standard_name = " + (me[3] if what == "dup std" else "new_name"), "units = 1", "dimensions = ()",
               "type = integer", "intent = in"]
        lines[end:end] = new
        lo, hi = end + 1, end + 2
    out = parse(v, lines)
    v.prove(not out.ok, "a malformed file is rejected", lambda: "%s %s" % (what, "\n".join(lines)))
    if out.ok:
        return
    v.prove(isinstance(out.exc, (po.CCPPError, po.ParseInternalError)), "reported as an error of the input",
            lambda: "%s %s\n%r" % (what, "\n".join(lines), out.exc))
    ns = [int(x) for x in re.findall(re.escape(FILE) + r":(\d+)", message(out.exc))] or \
        [int(x) for x in re.findall(r"abc_mod\.meta:(\d+)", message(out.exc))]
    v.prove(any(lo <= n <= hi for n in ns), "the error names the file and the line",
            lambda: "%s %s\nlines %d..%d: %s" % (what, "\n".join(lines), lo, hi, out.exc))


@contract(["metadata_table.MetadataSection.check_array_reference", "metadata_table.MetadataSection.variable_start"],
          sym=False, conc=3000, budget=10, note="bounded: references of up to four indices")
def array_references(v):
    """an element reference keeps its indices; its colons must be as many as the dimensions"""
    idx = [v.choice("i%d" % i, [":", ":", "qux", "3", " : ", "a_1"]) for i in range(v.choice("n", [1, 2, 3, 4]))]
    rank = v.choice("rank", [0, 1, 2])
    dims = ", ".join(["nn", "kk"][:rank])
    name = v.choice("name", ["x", "Var_1"])
    lines = list(BASE)
    lines[6] = "[ %s(%s) ]" % (name, ",".join(idx))
    lines[9] = "  dimensions = (%s)" % dims
    out = parse(v, lines)
    colons = len([x for x in idx if x.strip() == ":"])
    v.prove(out.ok == (colons == rank), "accepted iff the ranks agree", lambda: "%r %r" % (lines[6], out))
    if out.ok:
        got = out.value[0].sections()[0].variable_list()[0].get_prop_value("local_name")
        want = "%s(%s)" % (name, ",".join(x.strip() for x in idx))
        v.prove(got.replace(" ", "") == want, "the reference is kept", lambda: "%r %r" % (lines[6], got))
    else:
        v.prove("abc_mod.meta:7" in message(out.exc), "the error names the file and the line",
                lambda: "%r %r" % (lines[6], out.exc))
