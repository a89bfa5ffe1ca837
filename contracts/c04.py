"""C04: metadata values are accepted exactly when they are legal."""
import re

from pyvc.harness import contract

F = "parse_tools.parse_checkers."
TEXT = "".join(chr(c) for c in range(32, 127)) + "\t"      # characters of a metadata line
IDRE = "[A-Za-z][A-Za-z0-9_]*"
UNIT = r"[A-Za-z]+(?:-?[1-9][0-9]*)?"
# '1', powers of units separated by one blank, or words joined by underscores
UNITS = r"1|%s(?:[ \t]%s)*|[A-Za-z]+(?:_[A-Za-z][A-Za-z]+)*_[A-Za-z]+" % (UNIT, UNIT)
DIM = r"(?:[A-Za-z][A-Za-z0-9_]*|:|[0-9]+)"
REF = r"[A-Za-z][A-Za-z0-9_]*[ \t]*\([ \t]*%s[ \t]*(?:,[ \t]*%s[ \t]*){0,6}\)" % (DIM, DIM)
INT = r"[-+]?[0-9]+"
REAL = r"[-+]?(?:[0-9]+\.[0-9]*|\.[0-9]+)(?:[eE][-+]?[0-9]+)?"
LOGICAL = r"\.[tT][rR][uU][eE]\.|\.[fF][aA][lL][sS][eE]\."
CHARLIT = r"'(?:[^']|'')*'|\"(?:[^\"]|\"\")*\""
TYPES = ["integer", "real", "logical", "complex", "character"]
DP = r"[dD][oO][uU][bB][lL][eE][ \t]*[pP][rR][eE][cC][iI][sS][iI][oO][nN]"


def mod(v):
    return v.repo("parse_tools.parse_checkers")


def errors(v):
    return (v.repo("parse_tools").CCPPError,)


def ci(w):
    return "".join("[%s%s]" % (c, c.upper()) if c.isalpha() else c for c in w)


def decide(v, fn, legal, value, s, *a, canon=None, **k):
    """accepted iff legal, by value and by error; raising without errors requested counts as
    rejection"""
    for err in (False, True):
        out = v.call(fn, *a, err, catch=errors(v), **k)
        info = lambda: "%r -> %r" % (s, out)
        acc = out.ok and out.value is not None
        v.prove(v.Iff(acc, legal), "accepted iff legal" + (", with errors" if err else ""), info)
        if err:
            v.prove(out.ok == acc, "an illegal value is an error when errors are requested", info)
        if acc:
            v.prove(v.eq(out.value, value), "an accepted value comes back", info)


UPOOL = ["1", "m", "m s-1", "kg m-3", "K", "m2", "m02", "m 2", "m  s", "", " ", " m", "m ", "none", "a_b",
         "a_b_c", "a_bc_d", "m-0", "m-", "-1", "11", "m1 s-10", "m s_1", "%", "m\ts", "J kg-1 K-1", "degree_C",
         "a__b", "_a", "a_", "m 1", "1 m", "W m-2 s", "10", "m^2", "m.s", "K s-1", "a_b m", "m a_b"]


@contract([F + "check_units"], conc=3000)
def units(v):
    s = v.str("units", charset=TEXT, pool=UPOOL)
    t = s.strip()
    decide(v, mod(v).check_units, v.matches(t, UNITS), s, s, s, None)


@contract([F + "check_units"], sym=False, conc=30000, note="bounded: exhaustive short strings")
def units_short(v):
    n = v.choice("n", [0, 1, 2, 3, 4, 5])
    s = v.chars("units", n, "ab_ 1-02")
    decide(v, mod(v).check_units, v.matches(s.strip(), UNITS), s, s, s, None)


IDPOOL = ["a", "A1", "_a", "1a", "", "a b", "a_b", "a-b", " a", "a ", "aB_9", "a.b", "abcdef", "é"]


@contract([F + "check_fortran_id"], conc=3000)
def identifiers(v):
    s = v.str("name", charset=TEXT, pool=IDPOOL)
    m = v.int("maxlen", 0, pool=[0, 1, 3, 5])
    legal = v.And(v.matches(s, IDRE), v.Or(v.eq(m, 0), v.len(s) <= m))
    decide(v, mod(v).check_fortran_id, legal, s, s, s, None, max_len=m)


@contract([F + "check_cf_standard_name"], conc=3000)
def standard_names(v):
    s = v.str("name", charset=TEXT, pool=IDPOOL + ["Air_Temperature", "X", "x:y", "a(b)"])
    decide(v, mod(v).check_cf_standard_name, v.matches(s, IDRE), v.lower(s), s, s, None)


RPOOL = ["a", "a(b)", "a(b,c)", "a(:,b)", "a( :, 1 )", "a()", "a(,)", "a(b,)", "a(b", "a b", "a(b)c", "a(-1)",
         "a(b:c)", "1(a)", "a(b)(c)", "a(b c)", "a (b)", "a(%s)" % ",".join("abcdefg"),
         "a(%s)" % ",".join("abcdefgh"), "a(1b)", "a(b) ", " a(b)", "a(:,:,index_of_q)", "a((b))", "a%b", ""]


@contract([F + "check_fortran_ref"], conc=3000)
def references(v):
    s = v.str("ref", charset=TEXT, pool=RPOOL)
    legal = v.Or(v.matches(s, IDRE), v.matches(s, REF))
    decide(v, mod(v).check_fortran_ref, legal, s, s, s, None)


@contract([F + "check_fortran_ref"], conc=3000, cases=[1, 2, 3],
          note="references with up to 3 indices, names of any length")
def references_length(v, n):
    """every name of a reference obeys the length limit"""
    m = v.int("maxlen", 1, pool=[1, 3, 5])
    names = [v.name("n%d" % i, pool=["a", "abc", "abcd", "abcdef"]) for i in range(n + 1)]
    gap = v.choice("gap", ["", " "])
    s = names[0] + "(" + gap + v.join(gap + "," + gap, names[1:]) + gap + ")"
    legal = v.And(*[v.len(x) <= m for x in names])
    decide(v, mod(v).check_fortran_ref, legal, s, s, s, None, max_len=m)


@contract([F + "check_fortran_intrinsic", F + "check_fortran_type"], conc=3000,
          cases=["intrinsic", "other"], note="words without inner blanks")
def types(v, case):
    one_type(v, case)


@contract([F + "check_fortran_intrinsic", F + "check_fortran_type"], sym=False, conc=3000,
          cases=["double", "double other", "any"], note="bounded: texts of several words")
def types_words(v, case):
    one_type(v, case)


def one_type(v, case):
    nb = "".join(c for c in TEXT if c not in " \t")
    dbl = "[dD][oO][uU][bB][lL][eE]"
    pad = v.choice("pad", ["", " "])
    if case == "intrinsic":
        i = v.choice("type", range(len(TYPES)))
        s = v.str("text", charset="".join(sorted(set(TYPES[i] + TYPES[i].upper()))),
                  pool=[TYPES[i], TYPES[i].upper(), TYPES[i].title()], nonempty=True)
        v.assume(v.matches(s, ci(TYPES[i])))
        legal = True
    elif case in ("double", "double other"):
        s = v.str("text", charset="doubleDOUBLE", pool=["double", "DOUBLE", "Double"], nonempty=True)
        v.assume(v.matches(s, dbl))
        t = v.str("word", charset=nb, pool=["precision", "PRECISION", "Precision", "precisions", "real", "prec", "*8"],
                  nonempty=True)
        dp = v.matches(t, ci("precision"))
        legal = case == "double"
        v.assume(dp if legal else v.Not(dp))
        s = s + v.choice("gap", ["", " ", "   ", "\t"]) + t
    elif case == "other":
        s = v.str("text", charset=nb, pool=["real*8", "char", "int", "type", "doubleprecisions", "double", "type(a)", "",
                                            "realx", "xreal", "complex(kind=r8)", "a_t"])
        v.assume(v.Not(v.matches(s, "|".join([ci(t) for t in TYPES] + [dbl + ci("precision")]))))
        legal = False
    else:
        s = v.choice("text", TYPES + [t.upper() for t in TYPES] + [
            "double precision x", "double  real", "x real", "real x", "DOUBLE\tprecision", "re al", "precision double"])
        legal = intrinsic(v, s)
    s = pad + s + pad
    for err in (False, True):
        out = v.call(mod(v).check_fortran_intrinsic, s, error=err, catch=errors(v))
        info = lambda: "%r -> %r" % (s, out)
        v.prove(v.Iff(out.ok and out.value is not None, legal), "an intrinsic type is accepted iff it exists", info)
        v.prove(out.ok or err, "no error unless requested", info)
        if out.ok:
            v.prove(out.value is None or v.eq(out.value, s), "the type comes back as written", info)
            v.prove(not (err and out.value is None), "an illegal type is an error", info)


def intrinsic(v, s):
    t = v.lower(s.strip())
    return v.Or(v.matches(t, "|".join(TYPES)), v.matches(t, "double[ \t]*precision"))


@contract([F + "check_fortran_type", F + "register_fortran_ddt_name", F + "registered_fortran_ddt_name"], conc=3000)
def derived_types(v):
    """derived types are legal once registered"""
    s = v.str("type", charset=TEXT, pool=["a_t", "b_t", "A_t", "reals", "type", "", "real"])
    reg = v.bool("registered")
    legal = intrinsic(v, s)
    m = mod(v)
    old = list(m.registered_fortran_ddt_names())
    if v.symbolic:
        # by its contract (types)
        legal = v.bool("legal")
        v.stub(m.check_fortran_intrinsic, lambda t, error=False: t if legal else None)
    try:
        if reg:
            del m.registered_fortran_ddt_names()[:]
            m.register_fortran_ddt_name(s)
            m.register_fortran_ddt_name(s)
            v.prove(len(m.registered_fortran_ddt_names()) == 1, "a type is registered once")
        else:
            del m.registered_fortran_ddt_names()[:]
            o = v.str("other", charset=TEXT, pool=["a_t", "b_t"])
            v.assume(v.Not(v.eq(o, s)))
            m.register_fortran_ddt_name(o)
        for err in (False, True):
            out = v.call(m.check_fortran_type, s, None, err, catch=errors(v))
            v.prove(v.Iff(out.ok and out.value is not None, v.Or(legal, reg)),
                    "a type is accepted iff intrinsic or registered", lambda: "%r -> %r" % (s, out))
            v.prove(out.ok or err, "no error unless requested")
            if out.ok and out.value is not None:
                v.prove(v.eq(out.value, s), "the type comes back as written")
    finally:
        m.registered_fortran_ddt_names()[:] = old


NOUS = "".join(c for c in TEXT if c != "_")
LOWID = "abcdefghijklmnopqrstuvwxyz0123456789"
KINDCASES = ["none", "same", "other", "missing", "extra"]


def literal(v, body, how):
    """(text, kind of the variable, do the kinds agree)"""
    cs = LOWID + (LOWID.upper() if not v.symbolic else "")
    k = v.str("kind", charset=cs, pool=["kp", "r8", "KP"], nonempty=True)
    if v.choice("two", [False, True]):
        k = k + "_" + v.str("k2", charset=cs, pool=["phys", "x", "X"], nonempty=True)
    if how == "none":
        return body, "", True
    if how == "same":
        return body + "_" + k, k, True
    if how == "other":
        o = v.str("okind", charset=cs, pool=["kp", "r8", "KP", "R8"], nonempty=True)
        return body + "_" + o, k, v.eq(v.lower(o), v.lower(k))
    if how == "missing":
        return body, k, False
    return body + "_" + k, "", False


LPOOL = {"integer": ["1", "-12", "+3", "1.", "", "a", "1 2", "- 1", "0x1", "--1", " 7 ", "1 ", "007", "1e3"],
         "real": ["1.", "1", ".5", "-1.5e3", "1.e", ".", "1.5e+3", "1.d0", "nan.", "inf", "nan", "1..", "1.5 ", "+.e1",
                  " 2.5", "1.2.3", "1. 5", "1.5E-03"],
         "logical": [".true.", ".FALSE.", "T", ".t.", "true", ".true", ".True. ", " .true.", ".tru e."]}
LRE = {"integer": INT, "real": REAL, "logical": LOGICAL}


@contract([F + "check_fortran_literal"], conc=3000,
          cases=[(t, h) for t in ("integer", "real", "logical") for h in KINDCASES],
          note="values with no underscore, or one before the kind, kinds with at most one underscore, in lower case when symbolic, any case when bounded")
def literals(v, case):
    ty, how = case
    body = v.str("value", charset=NOUS, pool=LPOOL[ty])
    s, kind, agree = literal(v, body, how)
    if how in ("none", "missing"):
        want = body.strip()
        v.assume(v.Not(v.eq(want, "")))
    else:
        want = body.lstrip()
    tn = v.choice("type", [ty] if v.symbolic and how != "missing" else [ty, ty.upper()] + (["double precision", "DoublePrecision"] if ty == "real" else []))
    out = v.call(mod(v).check_fortran_literal, s, tn, kind)
    info = lambda: "%r as %s kind %r -> %r" % (s, tn, kind, out)
    v.prove(out.ok, "no unexpected error", info)
    legal = v.And(v.matches(want, LRE[ty]), agree)
    v.prove(v.Iff(out.value, legal), "a literal is accepted iff it is one of that type and kind", info)


@contract([F + "check_fortran_literal"], conc=6000, cases=[0, 1, 2, 3],
          note="character values of up to 3 characters, every character symbolic out of quotes, underscore, "
               "a letter and a blank")
def char_literals(v, n):
    body = v.chars("value", n, "'\"_a ")
    pre = v.choice("prefix", ["", "kc_"])
    kind = v.choice("kind", ["", "kc", "KC", "len=4", "len=*"])
    s = pre + body
    out = v.call(mod(v).check_fortran_literal, s, "character", kind)
    info = lambda: "%r kind %r -> %r" % (s, kind, out)
    v.prove(out.ok, "no unexpected error", info)
    t = body.strip() if pre == "" else body.rstrip()
    lit = v.matches(t, CHARLIT)
    agree = (pre == "") == (kind in ("", "len=4", "len=*"))
    v.prove(v.Iff(out.value, v.And(lit, agree)), "a character literal is accepted iff it is one", info)


@contract([F + "check_fortran_literal"], sym=False, conc=8000, note="bounded: pairs of component texts")
def complex_literals(v):
    comp = ["1", "2.", "-3.5e2", "a", "", " 4", "5 ", "6._kp", "7_kp", "8.", ".", "1.e"]
    a, b = v.choice("re", comp), v.choice("im", comp)
    o, c = v.choice("open", ["(", "", "[", "(("]), v.choice("close", [")", "", "))"])
    sep = v.choice("sep", [",", " , ", ",,", ""])
    kind = v.choice("kind", ["", "kp"])
    s = o + a + sep + b + c
    out = v.call(mod(v).check_fortran_literal, s, "complex", kind)
    k = "_" + kind if kind else ""
    one = lambda x: [r for r in (INT, REAL) if re.fullmatch("(?:%s)%s" % (r, k), x.strip())]
    legal = (o == "(" and c == ")" and sep in (",", " , ") and bool(one(a)) and one(a) == one(b))
    v.prove(out.ok and bool(out.value) == legal, "a complex literal is accepted iff both parts are legal",
            lambda: "%r kind %r -> %r" % (s, kind, out))


ALLVALUES = ["1", "-2", "1.", "2.5_kp", "3_kp", "3_KP", ".true.", ".false._kp", "'a'", "'a_b'", '"x"', "kc_'a'",
             "(1.,2.)", "abc", "", "xhix", "''", "'it''s'", "1_", "_1", "T", "foo(bar)", "aa", "'", ",", "kc_", "nan"]


def legal_literal(s, ty, kind):
    ty = ty.lower().strip()
    s = s.strip()
    if re.fullmatch(DP, ty):
        ty = "real"
    if ty == "character":
        k = "" if kind.startswith("len=") else kind
        m = re.fullmatch("(?:(%s)_)?(%s)" % (IDRE, CHARLIT), s)
        return m is not None and (m.group(1) or "").lower() == k.lower()
    if ty == "complex":
        m = re.fullmatch(r"\(([^,]*),([^,]*)\)", s)
        return m is not None and any(legal_literal(m.group(1), t, kind) and legal_literal(m.group(2), t, kind)
                                     for t in ("integer", "real"))
    if ty not in LRE:
        return False
    m = re.fullmatch("(%s)(?:_(.+))?" % LRE[ty], s)
    return m is not None and (m.group(2) or "").lower() == kind.lower()


@contract([F + "check_default_value", F + "check_local_name", F + "check_fortran_literal"], sym=False,
          conc=12000, note="bounded: all combinations of %d values with types and kinds" % len(ALLVALUES))
def values_of_types(v):
    s = v.choice("value", ALLVALUES)
    ty = v.choice("type", TYPES + ["Real", "double precision", "my_type_t", None])
    kind = v.choice("kind", [None, "kp", "KP", "len=8", "my_type_t", "kc"])
    prot = v.choice("protected", [None, False, True])
    d = {}
    if ty is not None:
        d["type"] = ty
    if kind is not None:
        d["kind"] = kind
    if prot is not None:
        d["protected"] = prot
    m = mod(v)
    lit = ty is not None and legal_literal(s, ty, kind or "")
    decide(v, m.check_default_value, lit, s, (s, d), s, d)
    ref = re.fullmatch(IDRE, s) is not None or re.fullmatch(REF, s) is not None
    decide(v, m.check_local_name, bool(ref or (prot and lit)), s, (s, d), s, d)
    for err in (False, True):
        v.prove(m.check_default_value(s, None, err) == s, "no check without properties")
        out = v.call(m.check_local_name, s, None, err, catch=errors(v))
        v.prove((out.ok and out.value == s) == ref, "a local name without properties is a reference",
                lambda: "%r -> %r" % (s, out))


@contract([F + "check_local_name"], conc=2000, cases=["none", "free", "protected"])
def local_names(v, case):
    """any text; a constant is legal only for a protected variable of that type"""
    s = v.str("name", charset=NOUS, pool=RPOOL + ["1", "-2", "1.", "+7"], nonempty=True)
    ref = v.Or(v.matches(s, IDRE), v.matches(s, REF))
    d, legal = None, ref
    if case == "free":
        d = {"type": "integer"}
        if v.bool("has"):
            d["protected"] = False
    if case == "protected":
        d = {"type": "integer", "protected": True}
        legal = v.Or(ref, v.matches(s.strip(), INT))
    decide(v, mod(v).check_local_name, legal, s, s, s, d)


DIAG = r"(?:[A-Za-z][A-Za-z0-9_]*)?(?:(?:\$\{process\}|\$\{scheme_name\})[A-Za-z0-9_]*)?"


@contract([F + "check_diagnostic_id", F + "check_diagnostic_fixed"], conc=3000)
def diagnostics(v):
    s = v.str("name", charset=TEXT, pool=["a", "2a", "a_${process}", "${scheme_name}_x", "a${process}b${process}",
                                          "${foo}", "a_${process", "a$", "a b", "${process}-x", "a_", "_a", "{process}"])
    other = v.choice("other", [None, "", "set"])
    d = v.choice("dict", ["none", "empty", "own", "other"])
    m = mod(v)
    for fn, own, oth, rx in ((m.check_diagnostic_id, "diagnostic_name", "diagnostic_name_fixed", DIAG),
                             (m.check_diagnostic_fixed, "diagnostic_name_fixed", "diagnostic_name", IDRE)):
        dd = None if d == "none" else {}
        both = False
        if d == "own":
            dd[own] = s
        if d == "other" and other is not None:
            dd[own] = s
            dd[oth] = other
            both = other != ""
        decide(v, fn, v.And(v.matches(s, rx), not both), s, (s, dd), s, dd)


@contract([F + "check_molar_mass"], sym=False, conc=500, note="bounded: number texts")
def molar_mass(v):
    s = v.choice("value", ["1", "1.0", "0", "-1", "-0.5", "10000", "10000.5", "10001", 10001, 12, 3.5, "nan", "inf",
                           "-inf", "x", "", "1e4", "1e5", None, [1], "18.0153"])
    try:
        x = float(s)
        legal = 0.0 <= x <= 10000.0
    except (TypeError, ValueError):
        x, legal = None, False
    decide(v, mod(v).check_molar_mass, legal, x, s, s, None)


@contract([F + "check_molar_mass"], conc=300)
def molar_mass_numbers(v):
    """any integer"""
    n = v.int("mass", pool=[-1, 0, 1, 9999, 10000, 10001])
    if v.symbolic:
        mod(v)      # the conversion float(n) is exact for the integers in question
        v.assume(v.And(n >= -100000, n <= 100000))
    decide(v, mod(v).check_molar_mass, v.And(n >= 0, n <= 10000), n, n, n, None)


@contract([F + "check_molar_mass"], conc=300)
def molar_mass_text(v):
    """text which is no number is never accepted"""
    s = v.str("text", charset=TEXT, pool=["x", "", "1 2", "--1", "1,5", "one"])
    num = r"[ \t]*[-+]?(?:(?:[0-9_]+\.?[0-9_]*|\.[0-9_]+)(?:[eE][-+]?[0-9_]+)?|[iI][nN][fF](?:[iI][nN][iI][tT][yY])?" \
          r"|[nN][aA][nN])[ \t]*"
    v.assume(v.Not(v.matches(s, num)))
    decide(v, mod(v).check_molar_mass, False, None, s, s, None)


# ---------------------------------------------------------------- dimensions
PART = "|".join(["[A-Za-z][A-Za-z0-9_]*", "[-+]?[0-9]+"])


@contract([F + "check_dimensions"], conc=4000, cases=[(1,), (2,), (3,), (4,), (1, 1), (2, 1), (1, 2)],
          note="lists of up to 2 dimensions of up to 4 parts, parts of any text without ':' and blanks that does "
               "not begin with 'size', possibly padded; text with inner blanks is bounded")
def dimensions(v, case):
    cs = "".join(c for c in TEXT if c not in (": \t" if v.symbolic else ":"))
    dims, legal, names = [], [], []
    pad = v.choice("pad", ["", " "]) if sum(case) <= 2 else ""
    for i, n in enumerate(case):
        parts = []
        for j in range(n):
            w = "%d%d" % (i, j)
            cl = v.choice("class" + w, ["id", "int", "under", "empty", "bad"])
            if cl == "empty" and n == 1:
                v.assume(False)
            p = ""
            if cl == "id":
                p = v.name("p" + w, pool=["a", "dim1", "Nlev", "b_c"])
                v.assume(v.Not(v.matches(p, "[sS][iI][zZ][eE].*")))
                names.append(p)
            if cl in ("int", "under"):
                p = v.choice("sign" + w, ["", "-", "+"] if sum(case) == 1 else ["", "-"] if sum(case) == 2 else [""]) + v.str(
                    "p" + w, charset="0123456789", pool=["1", "07", "55"], nonempty=True)
            if cl == "under":
                p = p + "_" + v.str("q" + w, charset="0123456789", pool=["1", "07", "55"], nonempty=True)
            if cl == "bad":
                p = v.str("p" + w, charset=cs, pool=["1a", " ", "a b", "a%b", "(a)", "f(x)", "-", "1.", "_a"], nonempty=True)
                v.assume(v.Not(v.matches(p.strip(), "[sS][iI][zZ][eE](?:.|\t)*|[+-]?[0-9_]+|" + IDRE)))
            legal.append(cl in ("id", "int", "empty"))
            p = p if cl == "empty" else pad + p + pad
            if n == 1:
                v.assume(v.Not(v.eq(p, "")))
            parts.append(p)
        legal.append(n <= 3)
        dims.append(v.join(":", parts))
    m = v.int("maxlen", 1, pool=[1, 3, 63]) if v.bool("limit") and len(case) == 1 and case[0] <= 2 else None
    kw = {}
    if m is not None:
        kw["max_len"] = m
        legal += [v.len(d) <= m for d in names]
    decide(v, mod(v).check_dimensions, v.And(*legal), dims, dims, dims, None, **kw)


def balanced(text):
    depth, q = 0, None
    begin = None
    for i, c in enumerate(text):
        if q:
            q = None if c == q else q
        elif c in "'\"":
            q = c
        elif c == "(":
            begin = i if depth == 0 else begin
            depth += 1
        elif c == ")":
            depth -= 1
            if depth == 0:
                return begin, i
    return (-1 if begin is None else begin), -1


def legal_dim(d, maxlen=0):
    parts = d.split(":")
    if len(parts) > 3:
        return False
    for p in parts:
        t = p.strip()
        if p == "" or re.fullmatch("[-+]?[0-9]+", t):
            continue
        if re.fullmatch(IDRE, t):
            if maxlen and len(t) > maxlen:
                return False
            continue
        if t[:4].lower() == "size" and -1 not in balanced(t[4:]):
            continue
        return False
    return True


DIMS = ["a", "b1", "1", "8", ":", "::", "a:b", "a:", ":b", "a:b:c", "a::c", "a:b:c:d", ":::", "1:n", "-1:1", "a :b",
        "size(foo)", "size(foo,1)", "SIZE(foo)", "size(foo", "size()", "sizefoo", "size foo", "1a", "a b", "_a", "a:2b",
        "size(a(b))", "size(')')", " a", "a ", " ", "1_0", "a:1_0", "(a)", "long_dimension_name"]


@contract([F + "check_dimensions"], sym=False, conc=6000, note="bounded: lists of up to 3 of %d dimensions" % len(DIMS))
def dimension_lists(v):
    n = v.choice("n", [0, 1, 1, 2, 3])
    dims = [v.choice("d%d" % i, DIMS) for i in range(n)]
    m = v.choice("max", [0, 0, 5, 63])
    kw = {"max_len": m} if m else {}
    decide(v, mod(v).check_dimensions, all(legal_dim(d, m) for d in dims), dims, dims, dims, None, **kw)
    decide(v, mod(v).check_dimensions, False, None, "x", "x", None)


@contract([F + "check_balanced_paren"], conc=20000, cases=[0, 1, 2, 3, 4],
          note="strings of up to 4 characters, every one symbolic; no ')' before the first '('")
def parentheses(v, n):
    s = v.chars("text", n, "()'\"a")
    # restriction: text up to the first '(' has no ')' outside quotes
    depth, q, begin, end = 0, None, -1, -1
    for i in range(n):
        c = s[i]
        if q is not None:
            if c == q:
                q = None
        elif c == "'":
            q = "'"
        elif c == '"':
            q = '"'
        elif c == "(":
            if depth == 0:
                begin = i
            depth += 1
        elif c == ")":
            v.assume(depth > 0)
            depth -= 1
            if depth == 0:
                end = i
                break
    out = v.call(mod(v).check_balanced_paren, s, catch=errors(v))
    info = lambda: "%r -> %r, want %r" % (s, out, (begin, end))
    v.prove(out.ok, "no error unless requested", info)
    v.prove(v.And(v.eq(out.value[0], begin), v.eq(out.value[1], end)),
            "the first parenthesis and its partner are found", info)
    out = v.call(mod(v).check_balanced_paren, s, error=True, catch=errors(v))
    v.prove(out.ok == (not (begin >= 0 and end < 0)), "an unbalanced parenthesis is an error when requested", info)


@contract([F + "check_balanced_paren"], sym=False, conc=5000, note="bounded: longer texts, any start")
def parentheses_long(v):
    n = v.choice("n", [4, 8, 14])
    s = "(" + v.chars("text", n, "()()'\"ab,")
    pre = v.choice("pre", ["", "abc", "x'('"])
    want = balanced(s)
    got = mod(v).check_balanced_paren(pre + s, start=len(pre))
    w = tuple(x + len(pre) if x >= 0 else -1 for x in want)
    v.prove(tuple(got) == w, "the first parenthesis and its partner are found",
            lambda: "%r from %d -> %r, want %r" % (pre + s, len(pre), got, w))


@contract([F + "fortran_list_match"], sym=False, conc=3000, cases=[0, 1, 2, 3], note="bounded: lists of up to 3 items")
def lists(v, n):
    cs = "".join(c for c in TEXT if c not in "(),'\"")
    if v.symbolic:
        cs = "".join(c for c in cs if c not in " \t")
    pad = v.choice("pad", ["", " "])
    items = [pad + v.str("i%d" % i, charset=cs, pool=["a", "", " ", " b ", "a b", "1:2"]) for i in range(n)]
    out_l = v.choice("left", ["", " ", "x", "x "])
    out_r = v.choice("right", ["", " ", "y"])
    s = out_l + "(" + v.join(",", items) + ")" + out_r
    got = mod(v).fortran_list_match(s)
    info = lambda: "%r -> %r" % (s, got)
    stripped = [i.strip() for i in items]
    legal = out_l.strip() == "" and out_r.strip() == ""
    if n > 1:
        legal = v.And(legal, *[v.Not(v.eq(x, "")) for x in stripped])
    v.prove(v.Iff(got is not None, legal), "a parenthesised list is recognised exactly", info)
    if got is not None:
        v.prove(len(got) == max(n, 1), "every item is returned", info)
        for a, b in zip(got, stripped or [""]):
            v.prove(v.eq(a, b), "the items are returned in order", info)


@contract([F + "fortran_list_match"], sym=False, conc=1000, note="bounded")
def not_lists(v):
    s = v.str("text", charset="".join(c for c in TEXT if c not in "'\""), pool=["a", "", "a,b", ")", "(a", "a)", "((a)"])
    if v.symbolic:
        v.assume(v.Not(v.matches(s, r"(?:[^()]|\t)*\((?:[ -~]|\t)*")))
    else:
        v.assume("(" not in s or ")" not in s or s == "((a)")
    v.prove(mod(v).fortran_list_match(s) is None, "text without balanced parentheses is no list")


# ---------------------------------------------------------------- VariableProperty
VP = "var_props.VariableProperty."


@contract([VP + "valid_value"], conc=3000)
def logical_properties(v):
    p = v.repo("var_props").VariableProperty("prop", bool, optional_in=True, default_in=False)
    s = v.str("value", charset=TEXT, pool=["t", "T", "true", ".True.", "f", "False", ".false.", "yes", "", "1", " t", "tru"])
    yes = v.matches(s, "|".join(ci(x).replace(".", r"\.") for x in ("t", "true", ".true.")))
    no = v.matches(s, "|".join(ci(x).replace(".", r"\.") for x in ("f", "false", ".false.")))
    for err in (False, True):
        out = v.call(p.valid_value, s, error=err, catch=errors(v))
        info = lambda: "%r -> %r" % (s, out)
        acc = out.ok and out.value is not None
        v.prove(v.Iff(acc, v.Or(yes, no)), "a logical value is accepted iff it is one", info)
        v.prove(out.ok == (acc or not err), "an illegal value is an error iff requested", info)
        if acc:
            v.prove(v.Iff(v.eq(out.value, True), yes), "a logical value has its meaning", info)
    for x in (True, False):
        v.prove(p.valid_value(x) is x, "a truth value is itself")


@contract([VP + "valid_value"], conc=3000)
def string_properties(v):
    """restricted and unrestricted strings; any other text"""
    vp = v.repo("var_props").VariableProperty
    p = vp("intent", str, valid_values_in=["in", "out", "inout"])
    s = v.str("value", charset=TEXT, pool=["in", "out", "inout", "In", " in", "", "inou"])
    legal = v.isin(s, ["in", "out", "inout"])
    q = vp("long_name", str, optional_in=True, default_in="x")
    for err in (False, True):
        out = v.call(p.valid_value, s, error=err, catch=errors(v))
        info = lambda: "%r -> %r" % (s, out)
        acc = out.ok and out.value is not None
        v.prove(v.Iff(acc, legal), "a restricted value is accepted iff it is listed", info)
        v.prove(out.ok == (acc or not err), "an illegal value is an error iff requested", info)
        v.prove(not acc or v.eq(out.value, s), "an accepted value comes back", info)
        v.prove(v.eq(q.valid_value(s, error=err), s), "an unrestricted value comes back", info)
    v.prove(p.valid_value(3) is None and p.valid_value(["in"]) is None, "only text is a string value")
    v.prove(v.eq(p.is_match(s), v.eq(v.lower(s), "intent")), "properties are matched by name ignoring case")


@contract([VP + "valid_value"], conc=2000, note="the check function by an arbitrary contract")
def checked_properties(v):
    """the check function decides, whatever it decides, and is given the text, properties and error flag"""
    calls = []
    verdict = v.bool("verdict")
    s = v.str("value", charset=TEXT, pool=["a", "1", "x y"], nonempty=True)
    canon = v.str("canon", pool=["A", "b"], nonempty=True)
    err = v.bool("err")
    d = {"k": 1}

    def check(val, pd, error):
        calls.append((val, pd, error))
        return canon if verdict else None
    p = v.repo("var_props").VariableProperty("p", str, check_fn_in=check)
    out = v.call(p.valid_value, s, prop_dict=d, error=err, catch=errors(v))
    v.prove(out.ok and len(calls) == 1, "the check function is asked once")
    v.prove(v.And(v.eq(calls[0][0], s), calls[0][1] is d, v.Iff(calls[0][2], err)), "with the value")
    if verdict:
        v.prove(v.eq(out.value, canon), "an accepted value comes back in canonical form")
    else:
        v.prove(out.value is None, "a rejected value is missing")


@contract([VP + "valid_value"], sym=False, conc=3000, note="bounded: numbers")
def number_properties(v):
    vp = v.repo("var_props").VariableProperty
    pt = v.choice("ptype", [int, float])
    vals = v.choice("values", [None, [1, 2]])
    s = v.choice("value", ["1", "2", "3", "-1", " 1 ", "1.0", "2.5", "x", "", None, "1e0", 1, 2.0, [1], "one"])
    p = vp("num", pt, valid_values_in=vals)
    try:
        x = pt(s)
        legal = vals is None or x in vals
    except (TypeError, ValueError):
        legal, x = False, None
    for err in (False, True):
        out = v.call(p.valid_value, s, error=err, catch=errors(v))
        info = lambda: "%s %r -> %r" % (pt, s, out)
        acc = out.ok and out.value is not None
        v.prove(acc == legal, "a number is accepted iff it is one", info)
        v.prove(out.ok == (acc or not err), "an illegal value is an error iff requested", info)
        if acc:
            v.prove(out.value == x and type(out.value) is pt, "the number comes back", info)


@contract([VP + "valid_value", F + "check_dimensions"], sym=False, conc=6000, note="bounded: dimension texts")
def dimension_properties(v):
    p = v.repo("var_props").VariableProperty("dimensions", list, check_fn_in=mod(v).check_dimensions)
    n = v.choice("n", [0, 1, 2, 3])
    pool = [d for d in DIMS if "," not in d and "'" not in d]
    dims = [v.choice("d%d" % i, pool) for i in range(n)]
    o, c = v.choice("o", ["(", "(", "( ", "x("]), v.choice("c", [")", ")", " )", "", ") x"])
    s = o + ",".join(dims) + c
    whole = o.strip() == "(" and c.strip() == ")"
    flat = [d.strip() for d in dims]
    legal = whole and balanced(s.strip())[1] == len(s.strip()) - 1
    if len(flat) > 1:
        legal = legal and all(flat)
    if flat == [""]:
        flat = []
    legal = legal and all(legal_dim(d) for d in flat)
    for err in (False, True):
        out = v.call(p.valid_value, s, error=err, catch=errors(v))
        info = lambda: "%r -> %r" % (s, out)
        acc = out.ok and out.value is not None
        v.prove(acc == bool(legal), "a dimension list is accepted iff it is legal", info)
        v.prove(not err or out.ok == acc, "an illegal list is an error when requested", info)
        if acc:
            v.prove(out.value == flat, "the dimensions come back in order", info)


@contract(["metavar.Var.valid_value", "metavar.Var.__init__", "metavar.Var.get_prop"], sym=False, conc=3000,
          note="bounded: attributes of real variables")
def variable_attributes(v):
    """every attribute is checked by the rule documented for it"""
    mv = v.repo("metavar")
    t = v.repo("parse_tools")
    env = v.repo("framework_env").CCPPFrameworkEnv(None, {"host_files": "", "scheme_files": "", "suites": ""})
    src = t.ParseSource("s", "scheme", t.ParseContext(3, "f.meta"))
    base = {"local_name": "x", "standard_name": "xs", "units": "m", "dimensions": ["ccpp_constant_one:n"],
            "type": "real", "kind": "kp", "intent": "in"}
    bad = {"local_name": ["1x", "a b", "x()"], "standard_name": ["a b", "1", "_a"], "units": ["m  s", "m%", " "],
           "dimensions": [["1a"], ["a:b:c:d"], ["a b"]], "type": ["reel", "double precision x"],
           "intent": ["In", "none", "in out"], "protected": ["yes", "2"], "allocatable": ["x"], "optional": ["maybe"],
           "target": ["?"], "polymorphic": ["no"], "top_at_one": ["up"], "state_variable": ["n"],
           "diagnostic_name": ["a b", "2a"], "diagnostic_name_fixed": ["2a", "a-b"], "default_value": ["1", "x"],
           "persistence": ["forever", "Run"], "molar_mass": ["x", "-1", "nan"], "advected": ["yes"],
           "constituent": ["?"], "no_such_attribute": ["1"]}
    good = {"local_name": ["x", "x(:,q)"], "standard_name": ["a_b", "A1"], "units": ["m s-1", "1"],
            "dimensions": [[], ["a:b", "ccpp_constant_one:k"]], "type": ["real", "INTEGER", "character"],
            "intent": ["in", "out", "inout"], "protected": [False, ".false."], "allocatable": ["T"], "optional": ["true"],
            "target": [".true."], "polymorphic": ["f"], "top_at_one": ["False"], "state_variable": ["t"],
            "diagnostic_name": ["a_${process}"], "diagnostic_name_fixed": ["abc"], "default_value": ["1.5_kp"],
            "persistence": ["run", "timestep"], "molar_mass": ["18.0", 2.0], "advected": ["true"], "constituent": ["t"],
            "long_name": ["any text, at all!"], "active": ["(a > 1)"]}
    ok = v.bool("ok")
    tab = good if ok else bad
    name = v.choice("attr", sorted(tab))
    val = v.choice("val", tab[name])
    d = dict(base)
    d[name] = val
    if name == "type" and ok:
        d.pop("kind")
    out = v.call(mv.Var, dict(d), src, env, catch=errors(v))
    info = lambda: "%s = %r -> %r" % (name, val, out)
    v.prove(out.ok == ok, "an attribute value is accepted iff it is legal", info)
    if not ok:
        v.prove("f.meta:4" in str(out.exc), "the error names the place", info)
    else:
        p = mv.Var.get_prop(name)
        v.prove(p is not None and p.name == name, "the attribute is known", info)
        if name in ("local_name", "units", "type", "intent", "persistence"):
            v.prove(out.value.valid_value(name) == val, "the value is valid", info)
            v.prove(out.value.get_prop_value(name) == val, "the value is kept", info)
            # another value of the same attribute, checked against the same rule
            if name in bad:
                b = bad[name][0]
                r = v.call(out.value.valid_value, name, test_value=b, catch=errors(v))
                v.prove(r.ok and r.value is None, "a given value is the one checked", lambda: "%r: %r" % (b, r))
