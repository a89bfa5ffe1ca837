"""C08: conditionally compiled code is read exactly when its conditions hold."""
import os
import tempfile
from pyvc.harness import contract

NAMES = ["A", "B", "_c1"]

# ---------------------------------------------------------------- conditions
# an expression is a nested tuple; `truth` is its documented meaning
#   ("def", x)  ("cmp", x, op, n)  ("name", x)  ("num", n)  ("not", e)  ("and"|"or", e...)


def truth(v, e, defs):
    k = e[0]
    if k == "def":
        return e[1] in defs
    if k == "num":
        return e[1] != 0
    if k == "name":
        return v.Not(v.eq(val(defs[e[1]]), 0)) if e[1] in defs else False
    if k == "cmp":
        if e[1] not in defs:
            return e[2] == "!="          # an undefined name equals no number
        a = val(defs[e[1]])
        b = e[3] if not isinstance(e[3], str) else val(defs[e[3]])
        return {"==": lambda: v.eq(a, b), "!=": lambda: v.Not(v.eq(a, b)), "<": lambda: a < b,
                "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b}[e[2]]()
    if k == "not":
        return v.Not(truth(v, e[1], defs))
    xs = [truth(v, x, defs) for x in e[1:]]
    return v.And(*xs) if k == "and" else v.Or(*xs)


def val(d):
    """a symbol defined without a value counts as one"""
    if d is None:
        return 1
    return int(d) if isinstance(d, str) else d


def text(e, sp, dstyle, extra):
    """C text of the expression; sp: blanks around operators, extra: redundant parentheses"""
    k = e[0]
    if k == "def":
        s = "defined(%s)" % e[1] if dstyle == 0 else (
            "defined %s" % e[1] if dstyle == 1 else "defined ( %s )" % e[1])
    elif k == "num":
        s = str(e[1])
    elif k == "name":
        s = e[1]
    elif k == "cmp":
        s = "%s%s%s%s%s" % (e[1], sp, e[2], sp, e[3])
        return "(" + s + ")" if extra else s
    elif k == "not":
        x = text(e[1], sp, dstyle, extra)
        if e[1][0] in ("cmp", "and", "or") and not x.startswith("("):
            x = "(" + x + ")"
        elif e[1][0] in ("and", "or"):
            x = "(" + x + ")"
        s = "!" + sp + x
    else:
        parts = []
        for x in e[1:]:
            t = text(x, sp, dstyle, extra)
            if k == "and" and x[0] == "or":
                t = "(" + t + ")"
            parts.append(t)
        s = (sp + ("&&" if k == "and" else "||") + sp).join(parts)
    return "(" + sp + s + sp + ")" if extra and k in ("and", "or") else s


def gen_expr(v, defs, depth, tag="e"):
    kinds = ["def", "cmp", "name", "num", "not", "and", "or"] if depth else ["def", "cmp", "name",
                                                                            "num"]
    k = v.choice(tag, kinds)
    if k == "def":
        return ("def", v.choice(tag + "x", NAMES))
    if k == "name":
        return ("name", v.choice(tag + "x", NAMES))
    if k == "num":
        return ("num", v.choice(tag + "n", [0, 1, 3]))
    if k == "cmp":
        x = v.choice(tag + "x", NAMES)
        if x not in defs:
            return ("cmp", x, v.choice(tag + "o", ["==", "!="]), v.choice(tag + "n", [0, 1, 2]))
        o = v.choice(tag + "o", ["==", "!=", "<", "<=", ">", ">="])
        others = [y for y in NAMES if y in defs]
        return ("cmp", x, o, v.choice(tag + "n", [0, 1, 2, 10] + others))
    if k == "not":
        return ("not", gen_expr(v, defs, depth - 1, tag + "1"))
    n = v.choice(tag + "k", [2, 3, 4])
    return (k,) + tuple(gen_expr(v, defs, depth - 1, tag + str(i)) for i in range(n))


def gen_defs(v):
    d = {}
    for x in NAMES:
        s = v.choice("def_" + x, ["absent", "plain", "0", "1", "2", "-1", "10"])
        if s != "absent":
            d[x] = None if s == "plain" else s
    return d


@contract(["parse_tools.preprocess.parse_preproc_line", "preprocess.preproc_item_value",
           "preprocess.preproc_bool", "preprocess.PreprocStack.process_if_line"],
          sym=False, conc=12000, budget=40,
          note="bounded: expressions of depth up to 3 over three names, sampled")
def conditions_evaluated(v):
    defs = gen_defs(v)
    e = gen_expr(v, defs, v.choice("depth", [0, 1, 2, 3]))
    t = text(e, v.choice("sp", ["", " "]), v.choice("ds", [0, 1, 2]), v.choice("extra", [False, True]))
    line = v.choice("dir", ["#if ", "# if ", "#if  ", "#elif "]) + t
    if t[0] in "(!" and v.choice("tight", [False, True]):
        line = "#if" + t
    ps = v.repo("preprocess").PreprocStack
    got, ok = ps.process_if_line(line, dict(defs))
    want = bool(truth(v, e, defs))
    v.prove(ok, "a condition is understood", lambda: line)
    v.prove(bool(got) == want, "a condition has its documented value",
            lambda: "%s with %r -> %r" % (line, defs, got))


SHAPES = [
    ("cmp", "A", "==", 1), ("cmp", "A", "!=", "B"), ("cmp", "A", "<", 3), ("cmp", "A", "<=", "B"),
    ("cmp", "A", ">", 0), ("cmp", "A", ">=", 2), ("name", "A"), ("not", ("name", "A")),
    ("and", ("cmp", "A", "==", 1), ("cmp", "B", ">", 2), ("name", "_c1")),
    ("or", ("cmp", "A", "==", 1), ("cmp", "B", ">", 2), ("not", ("name", "_c1"))),
    ("or", ("and", ("name", "A"), ("name", "B"), ("name", "_c1")), ("cmp", "A", "!=", 4)),
    ("and", ("or", ("name", "A"), ("cmp", "B", "<", 0), ("def", "X")),
     ("not", ("and", ("name", "_c1"), ("cmp", "A", "==", "B")))),
    ("and", ("name", "A"), ("name", "B"), ("name", "_c1"), ("def", "A")),
]


@contract(["preprocess.parse_preproc_line", "preprocess.preproc_item_value", "preprocess.preproc_bool",
           "preprocess.PreprocStack.process_if_line"], cases=list(range(len(SHAPES))), conc=300)
def conditions_evaluated_for_all_values(v, i):
    """fixed expression, definitions with any integer value"""
    e = SHAPES[i]
    defs = {x: v.int("val_" + x, -3, 6) if not v.symbolic else v.int("val_" + x) for x in NAMES}
    ps = v.repo("preprocess").PreprocStack
    for sp in ("", " "):
        line = "#if (" + text(e, sp, 0, False) + ")"
        got, ok = ps.process_if_line(line, dict(defs))
        v.prove(ok, "a condition is understood", lambda: line)
        v.prove(v.Iff(got, truth(v, e, defs)), "a condition has its documented value",
                lambda: "%s with %r -> %r" % (line, defs, got))


# ------------------------------------------------------------------- regions
class Model:
    """documented nesting of conditional regions"""

    def __init__(self):
        self.st = []      # [a branch was selected, current branch selected, else seen]

    def visible(self):
        return all(x[1] for x in self.st)

    def step(self, kind, cond=None):
        """False: the directive is misplaced"""
        if kind == "if":
            self.st.append([cond, cond, False])
            return True
        if not self.st:
            return False
        if kind == "endif":
            self.st.pop()
            return True
        top = self.st[-1]
        if top[2]:
            return False
        now = (not top[0]) and (cond if kind == "elif" else True)
        top[1] = now
        top[0] = top[0] or now
        top[2] = kind == "else"
        return True


IFS = ["#ifdef %s", "#ifndef %s", "#if defined(%s)", "#if !defined(%s)", "#  ifdef %s", "#if (defined %s)"]


def directive(v, k, i, cond):
    """a line whose condition is `cond` when T is defined and U is not"""
    if k == "if":
        s = IFS[i % len(IFS)]
        neg = "ndef" in s or "!" in s
        return s % ("T" if cond != neg else "U")
    if k == "elif":
        s = ["#elif defined(%s)", "#elif(defined(%s))", "# elif defined %s"][i % 3]
        return s % ("T" if cond else "U")
    return {"else": "#else", "endif": "#endif"}[k]


KINDS = [("if", True), ("if", False), ("elif", True), ("elif", False), ("else", None), ("endif", None)]


def regions(v, n):
    pp = v.repo("preprocess")
    err = v.repo("parse_source").ParseSyntaxError
    pobj = v.repo("parse_tools").ParseObject("f.F90", ["x"])
    st, md = pp.PreprocStack(), Model()
    defs = {"T": None}
    hist = []
    for i in range(n):
        kind, cond = v.choice("d%d" % i, KINDS)
        line = directive(v, kind, i, cond)
        hist.append(line)
        ok = md.step(kind, cond)
        out = v.call(st.process_line, line, defs, pobj, None, catch=(err,))
        v.prove(out.ok == ok, "a misplaced directive is an error, a legal one is not",
                lambda: "%r -> %r" % (hist, out))
        if not ok:
            return
        v.prove(out.value, "a directive is recognised as one", lambda: line)
        v.prove(st.in_true_region() == md.visible(),
                "a line is visible iff every enclosing region is in its selected branch",
                lambda: "%r -> %r" % (hist, st.in_true_region()))
        if v.symbolic and i < n - 1:
            continue
        out = v.call(st.process_line, "  x = 1 # not a directive", defs, pobj, None)
        v.prove(out.ok and not out.value, "other lines are no directives")


@contract(["preprocess.PreprocStack.process_line", "preprocess.PreprocStack.modify_region",
           "preprocess.PreprocStack.in_true_region"], conc=60000, budget=45, cases=[1, 2, 3, 4, 5, 6, 9],
          sym=False, note="exhaustive over all directive sequences up to length 6; length 9 sampled")
def regions_of_any_sequence(v, n):
    regions(v, n)


@contract(["preprocess.PreprocStack.process_line", "preprocess.PreprocStack.enter_region",
           "preprocess.PreprocStack.modify_region", "preprocess.PreprocStack.exit_region",
           "preprocess.PreprocStack.in_true_region"], conc=800, cases=[1, 2, 3, 4, 5, 6],
          note="conditions symbolic (any integer value of the symbols tested); sequences up to 6 directives")
def regions_with_symbolic_conditions(v, n):
    pp = v.repo("preprocess")
    err = v.repo("parse_source").ParseSyntaxError
    pobj = v.repo("parse_tools").ParseObject("f.F90", ["x"])
    st, md = pp.PreprocStack(), Model()
    vals = [v.int("c%d" % i, -1, 2) if not v.symbolic else v.int("c%d" % i) for i in range(n)]
    defs = {"C%d" % i: vals[i] for i in range(n)}
    shown = []
    for i in range(n):
        kind = v.choice("d%d" % i, ["if", "elif", "else", "endif"])
        cond = None
        if kind in ("if", "elif"):
            cond = bool(vals[i] > 0)
        line = {"if": "#if C%d > 0", "elif": "#elif C%d > 0", "else": "#else %d", "endif": "#endif %d"}[
            kind] % i
        shown.append(line)
        ok = md.step(kind, cond)
        out = v.call(st.process_line, line, defs, pobj, None, catch=(err,))
        v.prove(out.ok == ok, "a misplaced directive is an error, a legal one is not", lambda: shown)
        if not ok:
            return
        v.prove(v.Iff(st.in_true_region(), md.visible()),
                "a line is visible iff every enclosing region is in its selected branch",
                lambda: "%r with %r" % (shown, defs))


# --------------------------------------------------------- whole source files
@contract(["parse_fortran_file.read_file", "preprocess.PreprocStack.process_line"], sym=False,
          conc=6000, budget=45, note="bounded: generated files of up to 12 lines")
def source_files_read(v):
    pf = v.repo("fortran_tools.parse_fortran_file")
    err = v.repo("parse_source").ParseSyntaxError
    n = v.choice("n", list(range(1, 13)))
    defs = {"T": None, "N": "2"}
    cur = dict(defs)
    md = Model()
    lines, want = [], []
    good = True
    for i in range(n):
        k = v.choice("l%d" % i, ["text", "text", "if", "if", "elif", "else", "endif", "endif", "blank",
                                 "define", "undef"])
        keep = ""
        if k == "text":
            ln = "x%d = %d" % (i, i)
            if good and md.visible():
                keep = ln
        elif k == "blank":
            ln = ""
        elif k == "define":
            nm = v.choice("nm%d" % i, ["V", "N", "T"])
            va = v.choice("va%d" % i, ["", " 1", " 2", "  3 "])
            ln = "#define " + nm + va
            if good and md.visible():
                cur[nm] = va.strip() or None
        elif k == "undef":
            nm = v.choice("nm%d" % i, ["V", "N", "T"])
            ln = "#undef " + nm
            if good and md.visible():
                cur.pop(nm, None)
        else:
            cond = None
            if k in ("if", "elif"):
                e = gen_cond(v, i, cur)
                t = text(e, " ", i % 3, False)
                cond = bool(truth(v, e, cur))
                ln = "#%s %s" % (k, t)
                if k == "if" and e[0] == "def" and v.choice("short%d" % i, [False, True]):
                    ln = "#ifdef " + e[1]
                elif k == "if" and e[0] == "not" and e[1][0] == "def" and v.choice("short%d" % i, [
                        False, True]):
                    ln = "#ifndef " + e[1][1]
            else:
                ln = "#" + k
            if good:
                good = md.step(k, cond)
        lines.append(v.choice("ind%d" % i, ["", "  "]) + ln if ln and k != "text" else ln)
        want.append(keep)
    good = good and not md.st
    d = tempfile.mkdtemp(prefix="c08_")
    p = os.path.join(d, "f.F90")
    try:
        with open(p, "w") as fh:
            fh.write("\n".join(lines) + "\n")
        out = v.call(pf.read_file, p, preproc_defs=dict(defs), logger=None, catch=(err,))
    finally:
        os.unlink(p)
        os.rmdir(d)
    v.prove(out.ok == good, "unbalanced or misplaced directives are errors",
            lambda: "%s\n%r" % ("\n".join(lines), out))
    if good:
        got = [out.value.peek_line(i) for i in range(n)]
        v.prove([x.strip() for x in got] == want, "exactly the selected lines are visible, in place",
                lambda: "%s\n%r" % ("\n".join(lines), got))


def gen_cond(v, i, cur):
    k = v.choice("c%d" % i, ["def", "ndef", "num", "cmp", "and", "or", "and3"])
    x = v.choice("x%d" % i, ["T", "V", "N"])
    if k == "def":
        return ("def", x)
    if k == "ndef":
        return ("not", ("def", x))
    if k == "num":
        return ("num", v.choice("v%d" % i, [0, 1]))
    if k == "cmp":
        return ("cmp", x, "==", v.choice("v%d" % i, [1, 2, 3]))
    if k == "and3":
        return ("and", ("def", "T"), ("num", 1), ("def", x))
    return (k, ("def", x), ("cmp", "N", "==", 2))
