"""C06: generated Fortran respects line limits and means what was asked."""
from pyvc.harness import contract

FN = ["fortran_write.FortranWriter.write", "fortran_write.FortranWriter.find_best_break",
      "fortran_write.FortranWriter._in_quote", "fortran_write.FortranWriter.indent",
      "fortran_write.FortranWriter.__init__"]
BREAK = object()


class Recorder:
    """assumed contract of the output file: keeps what is written"""

    def __init__(self):
        self.texts = []

    def write(self, text):
        self.texts.append(text)

    def close(self):
        pass


def writer(v, **kw):
    fw = v.repo("fortran_write")
    rec = Recorder()
    fw.open = lambda *a, **k: rec
    try:
        return fw.FortranWriter("name.F90", "w", "description", "module", **kw), rec
    finally:
        del fw.open


def lines_of(v, rec):
    """the lines written, as lists of characters"""
    out, cur = [], []
    for t in rec.texts:
        for i in range(len(t)):
            c = t[i]
            if c == "\n":
                out.append(cur)
                cur = []
            else:
                cur.append(c)
    return out, not cur


def strip_left(cs):
    k = 0
    while k < len(cs) and cs[k] == " ":
        k += 1
    return cs[k:]


class Reader:
    """Fortran free form: statements and comments of lines of characters"""

    def __init__(self, lines):
        self.statements, self.comments, self.errors = [], [], []
        cur, quote, cont = [], None, False
        for ln in lines:
            body = strip_left(ln)
            if not body and not quote:
                continue
            if cont and not quote and body[0] == "!":
                self.comments.append(body[1:])
                continue
            if cont:
                if body and body[0] == "&":
                    ln = body[1:]
                    if not quote:
                        cur.append("exact")
                elif quote:
                    self.errors.append("a literal continued without '&'")
                else:
                    cur.append(BREAK)
            cont = False
            i = 0
            while i < len(ln):
                c = ln[i]
                if c == "&" and not strip_left(ln[i + 1:]):
                    cont = True
                    break
                if quote:
                    if c == quote:
                        quote = None
                    cur.append(c)
                elif c == "!":
                    self.comments.append(ln[i + 1:])
                    break
                elif c == "&":
                    self.errors.append("a stray '&'")
                    cur.append(c)
                else:
                    if c == "'":
                        quote = "'"
                    elif c == '"':
                        quote = '"'
                    cur.append(c)
                i += 1
            if not cont:
                if quote:
                    self.errors.append("an unterminated literal")
                    quote = None
                if any(not (x is BREAK or x == " ") for x in cur):
                    self.statements.append([x for x in cur if x != "exact"])
                cur = []
        if cont:
            self.errors.append("a continuation of nothing")


def same_code(v, want, got):
    """None, or why the statement read back is not the one asked for"""
    want, got = strip_left(want), strip_left(got)
    while want and want[-1] == " ":
        want.pop()
    while got and got[-1] == " ":
        got.pop()
    i, j, quote = 0, 0, None
    while i < len(want):
        c = want[i]
        if quote is None:
            k, broken = j, False
            while k < len(got) and (got[k] is BREAK or got[k] == " "):
                broken = broken or got[k] is BREAK
                k += 1
            if c == " ":
                if k == j:
                    return "a blank is lost at %d" % i
                while want[i] == " ":
                    i += 1
                j, c = k, want[i]
            elif k > j:
                if not broken:
                    return "blanks are added at %d" % i
                if not (i and (want[i - 1] == "," or
                               (i > 1 and want[i - 1] == "/" and want[i - 2] == "/"))):
                    return "a name or operator is broken at %d" % i
                j = k
        if j >= len(got):
            return "text is lost at %d" % i
        if got[j] is BREAK or not v.eq(got[j], c):
            return "text differs at %d" % i
        i += 1
        j += 1
        if quote:
            if c == quote:
                quote = None
        elif c == "'":
            quote = "'"
        elif c == '"':
            quote = '"'
    return None if j == len(got) else "extra text"


def comment_text(parts):
    return [c for p in parts for c in p if not (c == " " or c == "!")]


def show(text, rec):
    return lambda: "%r ->\n%s" % (text, "".join(str(x) for x in rec.texts))


def check(v, text, level, fill, most, indent=1, cont=2, start=True):
    w, rec = writer(v, indent=indent, continue_indent=cont, line_fill=fill, line_max=most)
    src = Reader([[text[i] for i in range(len(text))]])
    if src.errors:
        v.assume(False)       # precondition: literals are closed, no continuation in the text
    out = v.call(w.write, text, level)
    info = show(text, rec)
    v.prove(out.ok, "the text is written", lambda: "%r: %r" % (text, out))
    lines, whole = lines_of(v, rec)
    v.prove(whole, "whole lines are written", info)
    v.prove(all(len(x) <= most for x in lines), "no line is longer than the maximum", info)
    res = Reader(lines)
    v.prove(not res.errors, "continuations are legal",
            lambda: "%s %s" % (res.errors, info()))
    v.prove(len(res.statements) == len(src.statements), "one statement stays one statement", info)
    for a, b in zip(src.statements, res.statements):
        why = same_code(v, list(a), list(b))
        v.prove(why is None, "the statement read back is the one asked for",
                lambda: "%s: %s" % (why, info()))
    a, b = comment_text(src.comments), comment_text(res.comments)
    v.prove(len(a) == len(b) and v.And(*[v.eq(x, y) for x, y in zip(a, b)]),
            "comments stay comments and nothing else becomes one", info)
    if lines and strip_left(lines[0]):
        n = indent * level
        v.prove(all(c == " " for c in lines[0][:n]) and lines[0][n] != " ",
                "the first line has the indentation asked for", info)


# ---------------------------------------------------------------- any characters
# every '?' is any character
SKELETONS = ["abcd?efg?hijkl", "abcdefghi?jkl?mn", "abc?defghijkl?mnop", "a??bcdefghi?jklmno",
             "abcdef??ghij", "?abcd?efgh?ijklmnop", "ab?cdefghijklmnopqrs?tuv",
             "abcdefghijk??lmn", "abcdefghijkl?m?no", "??abcdefghi?jklmnopqr",
             "ab'cd?efghijklm?nopqr'st", "abcdefg ?hij?kl, mnop ! qr", "! abc?defghij?klmnopq rs",
             "abc(de, f'g?hi?jklmn'//op'qr)", "a'bc?'?'?defghi'", "abcdefghijklmnopq, r?s?t",
             "abc ?defg? hij?klm", 'ab"c?d\'efgh?\'ij, k"lmnop']
PRINT = "".join(chr(i) for i in range(32, 127) if chr(i) != "&")


def skeleton(v, sk):
    text = ""
    for i, piece in enumerate(sk.split("?")):
        if i:
            text = text + v.chars("c%d" % i, 1, PRINT)
        text = text + piece
    return text


@contract(FN, cases=list(range(len(SKELETONS))), conc=1500,
          note="texts of up to 29 characters, up to three of them any printable character except '&' "
               "and the others letters; line settings (10, 14) and (8, 10), indentation 0 and 2; "
               "precondition: literals are closed in the text, the maximum exceeds the fill by two")
def any_characters(v, case):
    text = skeleton(v, SKELETONS[case])
    v.assume(v.Not(v.eq(text[0], " ")))
    v.assume(v.Not(v.eq(text[len(text) - 1], " ")))
    fill, most = v.choice("settings", [(10, 14), (8, 10)])
    check(v, text, v.choice("level", [0, 2]), fill, most)


# ------------------------------------------------------------------- wider texts
ALPHABETS = ["abcdefg ,'\"!/ ", "abcdefghijk ,(/", "abcdefg' ,", "abcd!, ", "a' ", "ab,!'\"/= (x)"]


@contract(FN, sym=False, conc=30000, budget=60,
          note="bounded: texts of up to 60 characters, many line settings")
def random_texts(v):
    al = v.choice("alphabet", ALPHABETS)
    n = v.choice("length", [1, 5, 12, 20, 30, 45, 60])
    text = v.chars("text", n, al).strip()
    v.assume(text and "///" not in text)
    fill = v.choice("fill", [10, 11, 13, 20])
    most = fill + v.choice("more", [2, 3, 5, 20])
    check(v, text, v.choice("level", [0, 1, 3]), fill, most)


WORDS = ["call foo(", "a", "bb, ", "long_argument_name, ", "'a literal with, blanks'", "// ", " + ", "x%y(:,1)",
         "\"it's\"", "'it''s ! & no comment'", ")", "if (x) then", "name_" * 12, "'" + "text " * 30 + "'",
         "'" + "x" * 140 + "'", " ! ", "comment's text", "! ", "!! ", "integer, intent(in) :: ", "= ", ".and. "]


@contract(FN, sym=False, conc=20000, budget=60,
          note="bounded: texts of up to 14 pieces, the default line settings and 60, 100, 132 columns")
def realistic_texts(v):
    n = v.choice("n", [1, 2, 3, 4, 6, 9, 14])
    text = "".join(v.choice("w%d" % i, WORDS) for i in range(n)).strip()
    kw = v.choice("settings", [(97, 130), (97, 130), (60, 80), (100, 110), (120, 132)])
    v.assume("///" not in text)
    check(v, text, v.choice("level", [0, 1, 2, 6]), kw[0], kw[1], 3, 5)


@contract(FN + ["fortran_write.FortranWriter.comment", "fortran_write.FortranWriter.blank_line"],
          sym=False, conc=1500, note="bounded: comments of several lines, lists of statements, default settings")
def several_lines(v):
    w, rec = writer(v)
    n = v.choice("n", [1, 2, 3])
    parts = [v.choice("p%d" % i, ["", "a comment", "word " * 40, "it's", "x" * 150, "!", "! more", "!" * 120])
             for i in range(n)]
    level = v.choice("level", [0, 1, 3])
    out = v.call(w.comment, "\n".join(parts), level)
    v.prove(out.ok, "a comment is written", lambda: repr(out))
    lines, _ = lines_of(v, rec)
    res = Reader(lines)
    info = show(parts, rec)
    v.prove(not res.statements and not res.errors, "a comment contains no statement", info)
    v.prove(all(len(x) <= 130 for x in lines), "no line is longer than the maximum", info)
    v.prove("".join(comment_text(res.comments)) == "".join("".join(p.split()) for p in parts).replace("!", ""),
            "the comment says what was asked", info)
    w, rec = writer(v)
    sts = [v.choice("s%d" % i, ["call foo(a, b)", "x = 'a''b' ! and why", "if (a) then", "end if"])
           for i in range(n)]
    out = v.call(w.write, sts if v.choice("list", [True, False]) else "\n".join(sts), level)
    w.blank_line()
    lines, _ = lines_of(v, rec)
    v.prove(out.ok and ["".join(x) for x in lines] == [" " * (3 * level) + s for s in sts] + [""],
            "short statements are written as they are", show(sts, rec))


@contract(["fortran_write.FortranWriter.__enter__", "fortran_write.FortranWriter.__exit__",
           "fortran_write.FortranWriter.module_header", "fortran_write.FortranWriter.write_preamble",
           "fortran_write.FortranWriter.end_module_header"], sym=False, conc=200,
          note="bounded: the text around a module")
def module_frame(v):
    fw = v.repo("fortran_write")
    rec = Recorder()
    name = v.choice("module", ["m", "ccpp_physics_cap"])
    desc = v.choice("desc", ["kinds file", "two\nlines", "it's a cap", "word " * 40])
    fw.open = lambda *a, **k: rec
    try:
        with fw.FortranWriter("x.F90", "w", desc, name) as w:
            w.write_preamble()
            w.end_module_header()
            w.write("call foo()", 2)
    finally:
        del fw.open
    lines, _ = lines_of(v, rec)
    res = Reader(lines)
    got = [" ".join("".join(s).split()).lower() for s in res.statements]
    v.prove(not res.errors and got == ["module " + name, "implicit none", "private", "contains",
                                       "call foo()", "end module " + name],
            "a module with its statements between header and footer", lambda: repr(got))
    v.prove(all(len(x) <= 130 for x in lines), "no line is longer than the maximum")
