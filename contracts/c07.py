"""C07: Fortran source is split into the statements it contains."""
import os
import tempfile

from pyvc.harness import contract

MOD = "fortran_tools.parse_fortran_file"
FN = ["parse_fortran_file.read_file", "parse_fortran_file.scan_free_line",
      "parse_fortran_file.line_statements", "parse_fortran_file.read_statements",
      "parse_object.ParseObject.next_line", "parse_object.ParseObject.curr_line",
      "parse_object.ParseObject.write_line", "parse_object.ParseObject.peek_line",
      "parse_object.ParseObject.reset_pos"]
FIXED = [x.replace("scan_free", "scan_fixed") for x in FN]
BREAK = object()
IDENT = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"


# ------------------------------------------------ the Fortran rules (the oracle)
def blank(c):
    return c is BREAK or c == " "


def strip_left(cs):
    k = 0
    while k < len(cs) and cs[k] == " ":
        k += 1
    return cs[k:]


class Statements:
    def __init__(self):
        self.done, self.cur, self.quote, self.errors = [], [], None, []

    def finish(self):
        if self.quote:
            self.errors.append("an unterminated literal")
            self.quote = None
        if any(not blank(c) for c in self.cur):
            self.done.append(self.cur)
        self.cur = []

    def literal(self, c):
        """a character in a literal context"""
        if c == self.quote:
            self.quote = None
        self.cur.append(c)

    def code(self, c):
        if c == "'":
            self.quote = "'"
        elif c == '"':
            self.quote = '"'
        self.cur.append(c)


def free_form(lines):
    st = Statements()
    cont = False
    for ln in lines:
        body = strip_left(ln)
        if not body or body[0] == "!":
            continue
        if body[0] == "#":
            st.errors.append("a preprocessor line")
        if body[0] == "&":
            ln = body[1:]
            if not cont:
                st.errors.append("a continuation of nothing")
            rest = strip_left(ln)
            if not rest or rest[0] == "!" or rest[0] == "&":
                st.errors.append("an empty continuation")
        elif cont:
            if st.quote:
                st.errors.append("a literal continued without '&'")
            st.cur.append(BREAK)
        cont = comment = False
        for i, c in enumerate(ln):
            if st.quote:
                if c == "&" and not strip_left(ln[i + 1:]):
                    cont = True
                    break
                st.literal(c)
            elif c == "!":
                comment = True
                break
            elif c == "&":
                rest = strip_left(ln[i + 1:])
                if rest and not rest[0] == "!":
                    st.errors.append("a stray '&'")
                cont = comment = True
                break
            elif c == ";":
                st.finish()
            else:
                st.code(c)
        if not comment and ln and ln[-1] == "\\":
            st.errors.append("a backslash ends a line")
        if not cont:
            st.finish()
    if cont:
        st.errors.append("a continuation of nothing")
    st.finish()
    return st


def fixed_form(lines):
    st = Statements()
    for ln in lines:
        if not strip_left(ln):
            continue
        if any(ln[0] == c for c in "cC*!"):
            continue
        body = strip_left(ln)
        if body[0] == "!" and len(ln) - len(body) != 5:
            continue
        ln = ln[:72]
        if len(ln) > 5 and not (ln[5] == " " or ln[5] == "0"):
            if not st.cur:
                st.errors.append("a continuation of nothing")
            if any(not c == " " for c in ln[:5]):
                st.errors.append("a label on a continuation")
        else:
            if body[0] == "#":
                st.errors.append("a preprocessor line")
            st.finish()
            if any(not (c == " " or c.isdigit()) for c in ln[:5]):
                st.errors.append("text in the label field")
            st.cur.extend(ln[:5])
        if ln[-1] == "\\":
            st.errors.append("a backslash ends a line")
        for k in range(6, 72):
            c = ln[k] if k < len(ln) else " "
            if st.quote:
                st.literal(c)
            elif c == "!":
                break
            elif c == ";":
                st.finish()
            else:
                st.code(c)
    st.finish()
    return st


def without_comment(text):
    """characters of a statement up to its comment"""
    st = Statements()
    for i in range(len(text)):
        c = text[i]
        if st.quote:
            st.literal(c)
        elif c == "!":
            break
        else:
            st.code(c)
    return st.cur


def ident(c):
    return any(c == x for x in IDENT)


def same(v, want, got, fixed=False):
    """None, or why the statement differs from the one in the source"""
    i = j = 0
    quote = None
    while True:
        if quote is None:
            k, m, broken = i, j, False
            while k < len(want) and blank(want[k]):
                broken = broken or want[k] is BREAK
                k += 1
            while m < len(got) and got[m] == " ":
                m += 1
            gap_w, gap_g = k > i, m > j
            if k < len(want) and m < len(got) and i and not fixed and gap_w != gap_g:
                if gap_g or (ident(want[i - 1]) and ident(want[k])):
                    return "blanks differ at %d" % i
            i, j = k, m
        if i >= len(want) or j >= len(got):
            break
        if not v.eq(want[i], got[j]):
            return "text differs at %d" % i
        c = want[i]
        i += 1
        j += 1
        if quote:
            if c == quote:
                quote = None
        elif c == "'":
            quote = "'"
        elif c == '"':
            quote = '"'
    if i < len(want):
        return "text is lost"
    return "extra text" if j < len(got) else None


# --------------------------------------------------------------- the code's answer
class File:
    """assumed contract of a text file with these lines"""

    def __init__(self, lines):
        self.lines = [x + "\n" for x in lines]

    def readlines(self):
        return list(self.lines)

    def __iter__(self):
        return iter(self.lines)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Os:
    class path:
        exists = staticmethod(lambda p: True)
        isfile = staticmethod(lambda p: True)


def read(v, lines, name, defs=None):
    """statements of a source file, by the way parse_fortran_file reads them"""
    pf = v.repo(MOD)

    def go(path):
        pobj = pf.read_file(path, defs)
        pobj.reset_pos()
        line, _ = pobj.curr_line()
        out = []
        sts = pf.line_statements(line)
        sts = pf.read_statements(pobj, sts)
        while sts is not None:
            out.extend(sts)
            sts = pf.read_statements(pobj)
        return out
    if v.symbolic:
        old = pf.os
        pf.open, pf.os = (lambda p, *a, **k: File(lines)), Os
        try:
            return v.call(go, name)
        finally:
            del pf.open
            pf.os = old
    d = tempfile.mkdtemp(prefix="pyvc_c07_")
    p = os.path.join(d, name)
    try:
        with open(p, "w") as fh:
            fh.write("".join(x + "\n" for x in lines))
        return v.call(go, p)
    finally:
        os.remove(p)
        os.rmdir(d)


def check(v, lines, fixed=False, want_lines=None, defs=None):
    src = [[x[i] for i in range(len(x))] for x in (lines if want_lines is None else want_lines)]
    ref = fixed_form(src) if fixed else free_form(src)
    if ref.errors:
        v.assume(False)          # precondition: legal continuations and literals
    out = read(v, lines, "s.f" if fixed else "s.F90", defs)
    v.prove(out.ok, "legal source is read without an error",
            lambda: "%s\n%r" % ("\n".join(map(str, lines)), out))
    got = []
    for s in out.value:
        cs = without_comment(s)
        if any(not c == " " for c in cs):
            got.append(cs)
    info = lambda why="": "%s: %s\n-> %r" % (why, "\n".join(map(str, lines)), [str(x) for x in out.value])
    v.prove(len(got) == len(ref.done), "as many statements as in the source", info)
    for a, b in zip(ref.done, got):
        why = same(v, a, b, fixed)
        v.prove(why is None, "each statement as in the source, in order", lambda: info(why))


# ----------------------------------------------------------- any characters
# every '?' is any printable character
FREE = [
    ["a?b?c?d"],
    ["a?b &", "  c?d"],
    ["ab?&", "&c?d", "e"],
    ["ab ?&", " & c?d; e"],
    ["x='a?b&", "  &c?d' ? e"],
    ['x="a?b&', '  &c?d" ? e', "f"],
    ["a;?b", "?c;d"],
    ["a'b?c", "d?e ! f", "g"],
    ["a = ? & ! c?d", "  b ?", "c"],
    ["ab &", " ! co?ment", "", " & c?d", "e?f"],
    ["?a;b", "?", "'?'"],
    ["a?", "b?", "c?"],
    ["a,?&", "b,?&", "c?"],
    ["call f('it''s?',& ", "  \"?\") ! don't?", "end"],
    ["a ! b?", "c?", "d"],
]
PRINT = "".join(chr(i) for i in range(32, 127))


def fill(v, lines):
    out, k = [], 0
    for ln in lines:
        text = ""
        for i, piece in enumerate(ln.split("?")):
            if i:
                # a '#' in the first column is a preprocessor line
                text = text + v.chars("c%d" % k, 1, PRINT if len(text) else PRINT.replace("#", ""))
                k += 1
            text = text + piece
        out.append(text)
    return out


@contract(FN, cases=list(range(len(FREE))), conc=1500,
          note="sources of up to five lines, up to four characters of them any printable character; "
               "precondition: continuations and literals are legal Fortran; no preprocessor lines")
def free_source(v, case):
    check(v, fill(v, FREE[case]))


FIX = [
    ["      a?b?c?d"],
    ["      ab?c", "     &d?e", "      f"],
    ["?     ab", "     ?cd", "      e"],
    ["      x='a?b", "     1c?d' ? e"],
    ["      a;?b", "C comment?", "     !c?d"],
    ["      a ! c?mment", "     & b?c", "      d"],
    ["  10  a?b", "! a?b", "     + c?d"],
    ["       ?! a", "    ? ! b", "      c"],
]


@contract(FIXED, cases=list(range(len(FIX))), conc=1500,
          note="fixed-form sources of up to three lines, up to three characters of them any "
               "printable character; precondition: continuations, labels and literals are legal")
def fixed_source(v, case):
    check(v, fill(v, FIX[case]), fixed=True)


# ------------------------------------------------------------------ wider sources
PIECES = ["integer", " ", " :: ", "i", "real(kp)", ", ", "'it''s'", '"a;b!c&d"', "'&'", "!", ";", " & ", "&", "x",
          "! it's & more;", "call foo(", ")", "! \\", "= "]


@contract(FN, sym=False, conc=40000, budget=60, note="bounded: free-form sources of up to eight lines")
def random_free(v):
    lines = []
    for i in range(v.choice("lines", [1, 2, 3, 5, 8])):
        n = v.choice("n%d" % i, [0, 1, 2, 4, 7])
        lines.append("".join(v.choice("p%d_%d" % (i, j), PIECES) for j in range(n)))
    check(v, lines)


WORDS = ["integer :: i", "x = 'a literal; with ! and & in it'", 'y = "it\'s"', "call foo(a, b, c)",
         "real, intent(in) :: long_name(:,:)", "s = 'don''t' // \"x\"", "if (a) then", "end if"]


def split_up(v, tag, text):
    """a statement on several lines, broken anywhere"""
    parts, k = [], 0
    n = v.choice("breaks" + tag, [0, 0, 1, 1, 2, 3])
    cuts = sorted({1 + v.int("cut%s%d" % (tag, i), 0, len(text) - 3) for i in range(n)} - {0})
    cuts = [c for c in cuts if 0 < c < len(text)]
    for c in cuts + [len(text)]:
        parts.append(text[k:c])
        k = c
    lines = []
    for i, p in enumerate(parts):
        if i:
            p = v.choice("ind%s%d" % (tag, i), ["", "   "]) + "&" + p
        if i < len(parts) - 1:
            p += "&"
            if "'" not in text and '"' not in text:
                p += v.choice("com%s%d" % (tag, i), ["", " ! it's a; comment & more", "  "])
        lines.append(p)
        if i < len(parts) - 1:
            lines.extend(v.choice("between%s%d" % (tag, i), [[], [], [""], ["  ! comment's & text"]]))
    return lines


@contract(FN, sym=False, conc=20000, budget=60,
          note="bounded: up to five statements broken at any place, comments, blank lines, several to a line")
def broken_statements(v):
    lines = []
    for i in range(v.choice("statements", [1, 2, 3, 5])):
        text = v.choice("s%d" % i, WORDS)
        if v.choice("second%d" % i, [False, False, True]):
            text += v.choice("sep%d" % i, [";", " ; ", "; ; "]) + v.choice("t%d" % i, WORDS)
        ls = split_up(v, str(i), text)
        ls[-1] += v.choice("end%d" % i, ["", "", " ! it's; done &", " !", " ! back\\"])
        lines.extend(ls)
        lines.extend(v.choice("after%d" % i, [[], [], [""], ["! text; more"], ["!> x \\"]]))
    check(v, lines)


@contract(FIXED, sym=False, conc=15000, budget=60, note="bounded: fixed-form sources of up to eight lines")
def random_fixed(v):
    lines = []
    for i in range(v.choice("lines", [1, 2, 3, 5, 8])):
        kind = v.choice("k%d" % i, ["new", "new", "new", "more", "more", "comment", "blank", "label"])
        if kind == "blank":
            lines.append("")
        elif kind == "comment":
            lines.append(v.choice("c%d" % i, ["C it's", "c & ;", "* x", "!", "  ! it's", "        ! more",
                                              "C ends with \\"]))
        else:
            start = {"new": "      ", "label": v.choice("l%d" % i, [" 10   ", "100   ", "    1 "]),
                     "more": v.choice("m%d" % i, ["     &", "     1", "     !", "     *", "     C"])}[kind]
            n = v.choice("n%d" % i, [1, 2, 4])
            text = "".join(v.choice("p%d_%d" % (i, j), ["integer", " i", ", ", "'it''s'", '"a;b!c"', "'", ";",
                                                       " ! it's;", "x = ", "a" * 30]) for j in range(n))
            ln = start + text
            if len(ln) <= 72 and v.choice("seq%d" % i, [False, False, True]):
                ln = ln.ljust(72) + v.choice("q%d" % i, ["00010", "it's", "SEQ; !"])
            lines.append(ln)
    check(v, lines, fixed=True)


@contract(FN, sym=False, conc=6000, budget=40,
          note="bounded: preprocessor lines between and inside statements (selection itself is C08)")
def preprocessed(v):
    defs = v.choice("defs", [{}, {"AAA": "1"}])
    lines, want = [], []
    for i in range(v.choice("n", [1, 2, 3])):
        a, b, c = (v.choice("w%d%s" % (i, t), ["aa = 1", "bb = 'x;y'", "cc = 2; dd = 3", "! it's"]) for t in "abc")
        form = v.choice("form%d" % i, ["plain", "if", "inside"])
        cond = v.choice("cond%d" % i, [("#ifdef AAA", bool(defs)), ("#ifndef AAA", not defs),
                                       ("#if defined(AAA)", bool(defs))])
        if form == "plain":
            lines.append(a)
            want.append(a)
        elif form == "if":
            lines += [cond[0], a, "#else", b, "#endif", c]
            want += [a if cond[1] else b, c]
        else:
            lines += ["call foo(a, &", cond[0], "  b, &", "#else", "  c, &", "#endif", "  d)"]
            want += ["call foo(a, &", "  b, &" if cond[1] else "  c, &", "  d)"]
    check(v, lines, want_lines=want, defs=defs)
