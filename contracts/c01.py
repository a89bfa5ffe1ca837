"""C01: unit conversions are physically correct and mutually inverse."""
import os
import re
import sys
from fractions import Fraction

import z3

from pyvc.harness import contract, SCRIPTS
from contracts.fexpr import Text, parse, value, leaves, number, zreal, BadText, MARK

# ---------------------------------------------------------------- specification
PI = Fraction("3.14159265358979323846264338327950288")
# unit -> (factor to SI, offset to SI, dimension vector m kg s K A mol rad)
def _d(**k):
    return tuple(k.get(x, 0) for x in ("m", "kg", "s", "K", "A", "mol", "rad"))

BASE = {
    "m": (Fraction(1), 0, _d(m=1)), "mm": (Fraction(1, 1000), 0, _d(m=1)),
    "cm": (Fraction(1, 100), 0, _d(m=1)), "um": (Fraction(1, 10**6), 0, _d(m=1)),
    "nm": (Fraction(1, 10**9), 0, _d(m=1)), "km": (Fraction(1000), 0, _d(m=1)),
    "dm": (Fraction(1, 10), 0, _d(m=1)),
    "s": (Fraction(1), 0, _d(s=1)), "min": (Fraction(60), 0, _d(s=1)),
    "h": (Fraction(3600), 0, _d(s=1)), "hr": (Fraction(3600), 0, _d(s=1)),
    "d": (Fraction(86400), 0, _d(s=1)), "day": (Fraction(86400), 0, _d(s=1)),
    "ms": (Fraction(1, 1000), 0, _d(s=1)),
    "kg": (Fraction(1), 0, _d(kg=1)), "g": (Fraction(1, 1000), 0, _d(kg=1)),
    "mg": (Fraction(1, 10**6), 0, _d(kg=1)), "ug": (Fraction(1, 10**9), 0, _d(kg=1)),
    "K": (Fraction(1), 0, _d(K=1)), "C": (Fraction(1), Fraction("273.15"), _d(K=1)),
    "Pa": (Fraction(1), 0, _d(kg=1, m=-1, s=-2)), "hPa": (Fraction(100), 0, _d(kg=1, m=-1, s=-2)),
    "kPa": (Fraction(1000), 0, _d(kg=1, m=-1, s=-2)), "mb": (Fraction(100), 0, _d(kg=1, m=-1, s=-2)),
    "bar": (Fraction(100000), 0, _d(kg=1, m=-1, s=-2)),
    "N": (Fraction(1), 0, _d(kg=1, m=1, s=-2)),
    "J": (Fraction(1), 0, _d(kg=1, m=2, s=-2)), "W": (Fraction(1), 0, _d(kg=1, m=2, s=-3)),
    "erg": (Fraction(1, 10**7), 0, _d(kg=1, m=2, s=-2)),
    "mol": (Fraction(1), 0, _d(mol=1)), "A": (Fraction(1), 0, _d(A=1)),
    "radian": (Fraction(1), 0, _d(rad=1)), "rad": (Fraction(1), 0, _d(rad=1)),
    "degree": (PI / 180, 0, _d(rad=1)), "degree_north": (PI / 180, 0, _d(rad=1)),
    "degree_east": (PI / 180, 0, _d(rad=1)),
    "1": (Fraction(1), 0, _d()), "one": (Fraction(1), 0, _d()),
    "percent": (Fraction(1, 100), 0, _d()), "%": (Fraction(1, 100), 0, _d()),
}


def si(units):
    """(factor, offset, dimension) of a unit string, None if not understood"""
    if units in BASE:
        return BASE[units]
    f, dim = Fraction(1), [0] * 7
    for w in units.split(" "):
        m = re.fullmatch(r"([A-Za-z_%1]+?)([+-]?[0-9]+)?", w)
        if m is None or m.group(1) not in BASE or BASE[m.group(1)][1]:
            return None
        p = int(m.group(2) or 1)
        b = BASE[m.group(1)]
        f *= b[0] ** p
        dim = [x + p * y for x, y in zip(dim, b[2])]
    return (f, 0, tuple(dim))


def decode(ident):
    """unit string for a Python identifier built from one"""
    if ident in BASE:
        return ident
    s = ident.replace("_minus_", "-").replace("_plus_", "+")
    out, words = [], s.split("_")
    for w in words:
        if out and (out[-1] + "_" + w) in BASE:
            out[-1] += "_" + w
        else:
            out.append(w)
    return " ".join(out)


def table():
    """pairs offered by the current tree (names only)"""
    src = open(os.path.join(SCRIPTS, "conversion_tools", "unit_conversion.py")).read()
    names = set(re.findall(r"\b([A-Za-z_]\w*?__to__\w+)", src))
    for p in (os.path.join(SCRIPTS, "parse_tools"), SCRIPTS):
        if p not in sys.path:
            sys.path.insert(0, p)
    return sorted(names)


def _funcs(uc):
    return sorted(n for n in dir(uc) if "__to__" in n and callable(getattr(uc, n)))


DOCUMENTED = [     # the conversions the framework documents; each must be offered both ways
    ("mm", "m"), ("cm", "m"), ("um", "m"), ("m", "km"), ("mm", "km"), ("s", "min"), ("s", "h"),
    ("h", "d"), ("s", "d"), ("K", "C"), ("kg kg-1", "g kg-1"), ("radian", "degree"),
    ("radian", "degree_north"), ("radian", "degree_east"), ("Pa", "hPa"),
    ("m s-1", "km h-1"), ("W m-2", "erg cm-2 s-1")]
PAIRS = DOCUMENTED + [(b, a) for a, b in DOCUMENTED]
ALLUNITS = sorted({a for p in PAIRS for a in p}) + [
    "1", "none", "NONE", "m2", "K s-1", "kg m-2", "frac", "percent", "m s-2", "flag", "g",
    "kg", "kg kg-1 s-1", "J", "W", "hPa s-1", "m+2"]
KINDS = ["kind_phys", "r8", "REAL32", "kind_dyn", "k_", "kind_host"]
NAMES = ["x", "foo_local", "T_2m", "var"]


def conv_spec(frm, to):
    """(a, b, eps): to-value = a * from-value + b; relative tolerance for angles"""
    s, t = si(frm), si(to)
    if s is None or t is None:
        return None
    a = s[0] / t[0]
    b = (s[1] - t[1]) / t[0]
    ang = ("rad" in frm or "deg" in frm)
    return (a, b, Fraction(1, 10**10) if ang else 0, s[2] == t[2])


def expr_of(v, text, ref, kind, want):
    """z3 Real of the right-hand side; every literal must have the wanted kind"""
    x = z3.Real("x")
    tree = parse(text.text)
    for lf in leaves(tree):
        if lf[0] == "num":
            v.prove(v.eq(text.back(lf[2]), kind), "literal constants have the kind of the result",
                    lambda: "%s in %r, kind wanted %r" % (lf, text.text, kind))
    nref = sum(1 for lf in leaves(tree) if lf[0] == "ref")
    v.prove(nref == 1, "the variable is used once", text.text)

    def leaf(lf):
        if lf[0] == "num":
            return zreal(number(lf[1]))
        return ref(lf)
    return x, value(tree, leaf)


def check_pair(v, fwd, rev, frm, to, kf, kr, vf, vr):
    """fwd converts a value in <frm>; rev is its inverse"""
    x = z3.Real("x")

    def one(txt, kind, var, back=None):
        t = Text(txt)

        def ref(lf):
            check_ref(v, t, lf, var)
            return x if back is None else back
        return expr_of(v, t, ref, kind, None)[1]
    f = one(fwd, kf, vf)
    spec = conv_spec(frm, to)
    if spec is None:
        v.prove(False, "conversion between units outside the unit table of the specification",
                "%s to %s" % (frm, to))
        return
    a, b, eps, samedim = spec
    v.prove(samedim, "both units measure the same quantity", "%s, %s" % (frm, to))
    good = zreal(a) * x + zreal(b)
    if eps:
        mag = z3.If(good >= 0, good, -good)
        claim = z3.And(f - good <= zreal(eps) * mag, good - f <= zreal(eps) * mag)
    else:
        claim = f == good
    v.valid(claim, "the expression is the physical conversion for every value",
            lambda: "%s to %s: %r" % (frm, to, fwd))
    r = one(rev, kr, vr, back=f)
    v.valid(r == x, "converting back gives the original value",
            lambda: "%s to %s: %r then %r" % (frm, to, fwd, rev))


def check_ref(v, t, lf, var):
    """a reference in the expression is the variable, possibly inside real(var, kind)"""
    parts = lf[1]
    v.prove(len(parts) == 1 and v.eq(t.back(parts[0][0]), var) and parts[0][1] is None,
            "the variable converted is the one given", t.text)


def _env(v):
    fe = v.repo("framework_env")
    return fe.CCPPFrameworkEnv(None, ndict={"host_files": "", "scheme_files": "", "suites": ""},
                               kind_types=["kind_phys=REAL64", "kind_dyn=REAL32",
                                           "kind_host=REAL64"])


@contract(["unit_conversion.*__to__*"], conc=300)
def table_entries(v):
    """every conversion function of the module, for every variable value and kind"""
    uc = v.repo("conversion_tools.unit_conversion")
    names = _funcs(uc)
    for a, b in DOCUMENTED:
        for p in ((a, b), (b, a)):
            n = "__to__".join(u.replace("-", "_minus_").replace(" ", "_") for u in p)
            v.prove(n in names, "documented conversion is available", n)
    name = v.choice("function", names)
    frm, to = (decode(w) for w in name.split("__to__"))
    inv = "__to__".join(reversed(name.split("__to__")))
    v.prove(inv in names, "the opposite conversion is available", inv)
    kind = v.name("kind", pool=KINDS)
    var = v.name("var", pool=NAMES)
    fwd = v.fmt(getattr(uc, name)(), var=var, kind="_" + kind)
    rev = v.fmt(getattr(uc, inv)(), var=var, kind="_" + kind)
    check_pair(v, fwd, rev, frm, to, kind, kind, var, var)
    bare = v.fmt(getattr(uc, name)(), var=var, kind="")
    expr_of(v, Text(bare), lambda lf: z3.Real("x"), "", None)


def _vco(v, u1, u2, k1, k2, **kw):
    vp = v.repo("var_props")
    return vp.VarCompatObj(
        "std_name", kw.get("typ", "real"), k1, u1, [], "loc1", False,
        "std_name", kw.get("typ", "real"), k2, u2, [], "loc2", False, _env(v))


def _split(text):
    lhs, eq, rhs = text.text.partition(" = ")
    return lhs, rhs


def rhs_of(v, txt, lvar):
    t = Text(txt)
    lhs, _, rhs = t.text.partition("=")
    v.prove(v.eq(t.back(lhs.strip()), lvar), "the result is stored in the variable given", t.text)
    t.text = rhs.strip()
    return t


@contract(["var_props.VarCompatObj.__init__", "var_props.VarCompatObj._get_unit_convstrs",
           "var_props.VarCompatObj.units_to_string", "var_props.VarCompatObj._get_kind_convstrs",
           "var_props.VarCompatObj.forward_transform", "var_props.VarCompatObj.reverse_transform"],
          conc=4000)
def capgen_transform_text(v):
    """the assignment statements for a documented pair, any kinds and names"""
    u1, u2 = v.choice("units", PAIRS)
    same = v.choice("kinds", ["same", "different", "equivalent"])
    if same == "same":
        k1 = v.name("kind", pool=KINDS)
        k2 = k1
    elif same == "equivalent":
        k1, k2 = "kind_phys", "kind_host"
    else:
        k1, k2 = v.choice("kpair", [("kind_phys", "kind_dyn"), ("REAL64", "kind_dyn"),
                                    ("kind_dyn", "kind_host"), ("r4", "r8")])
    l1, l2 = v.name("lname1", pool=NAMES), v.name("lname2", pool=["y", "tmp_1"])
    vco = _vco(v, u1, u2, k1, k2)
    v.prove(vco.has_unit_transforms, "a difference in units is converted")
    v.prove(v.Iff(vco.has_kind_transforms, same == "different"),
            "a difference in kind is converted", lambda: "%s %s" % (k1, k2))
    fwd = rhs_of(v, vco.forward_transform(l2, l1, [], []), l2)
    rev = rhs_of(v, vco.reverse_transform(l1, l2, [], []), l1)
    both(v, fwd, rev, u1, u2, k1, k2, l1, l2, same == "different")


def both(v, fwd, rev, u1, u2, k1, k2, l1, l2, conv, chk=None):
    x = z3.Real("x")

    def one(t, var, kind, back):
        def ref(lf):
            parts = lf[1]
            inner = lf
            if conv:
                v.prove(len(parts) == 1 and parts[0][0].lower() == "real" and
                        parts[0][1] is not None and len(parts[0][1]) == 2 and
                        parts[0][1][0][0] == "ref" and parts[0][1][1][0] == "ref",
                        "the value is converted to the kind of the result", t.text)
                v.prove(v.eq(t.back(parts[0][1][1][1][0][0]), kind),
                        "the value is converted to the kind of the result", t.text)
                inner = parts[0][1][0]
            (chk or check_ref)(v, t, inner, var)
            return back
        return expr_of(v, t, ref, kind, None)[1]
    f = one(fwd, l1, k2, x)
    a, b, eps, _ = conv_spec(u1, u2)
    good = zreal(a) * x + zreal(b)
    if eps:
        mag = z3.If(good >= 0, good, -good)
        claim = z3.And(f - good <= zreal(eps) * mag, good - f <= zreal(eps) * mag)
    else:
        claim = f == good
    v.valid(claim, "the expression is the physical conversion for every value",
            lambda: "%s to %s: %r" % (u1, u2, fwd.text))
    r = one(rev, l2, k1, f)
    v.valid(r == x, "converting back gives the original value",
            lambda: "%s to %s: %r then %r" % (u1, u2, fwd.text, rev.text))


@contract(["var_props.VarCompatObj.__init__", "var_props.VarCompatObj._get_unit_convstrs"],
          conc=2500)
def capgen_every_pair_of_units(v):
    """no conversion known: error; equal units: nothing inserted (all pairs of a list)"""
    u1 = v.choice("units1", ALLUNITS)
    u2 = v.choice("units2", ALLUNITS)
    pe = v.repo("parse_tools").ParseSyntaxError
    out = v.call(_vco, v, u1, u2, "kind_phys", "kind_phys", catch=(pe,))
    n1, n2 = (("none" if u.lower() == "none" else u) for u in (u1, u2))
    if n1 == n2:
        v.prove(out.ok and not out.value.has_unit_transforms, "equal units need no conversion",
                "%r %r" % (u1, u2))
        v.prove(v.eq(out.value.forward_transform("b", "a", [], []), "b = a"),
                "nothing is inserted for equal units")
    elif (u1, u2) in PAIRS:
        v.prove(out.ok and out.value.has_unit_transforms, "a known conversion is used",
                "%r %r" % (u1, u2))
    elif out.ok:
        # not documented: only acceptable if it is a correct conversion
        v.prove(out.value.has_unit_transforms, "different units are never passed through",
                "%r %r" % (u1, u2))
        spec = conv_spec(u1, u2)
        v.prove(spec is not None and spec[3], "units of different quantities are an error",
                "%r %r" % (u1, u2))
        both(v, rhs_of(v, out.value.forward_transform("b", "a", [], []), "b"),
             rhs_of(v, out.value.reverse_transform("a", "b", [], []), "a"),
             u1, u2, "kind_phys", "kind_phys", "a", "b", False)


def _known(uc):
    return [tuple(n.split("__to__")) for n in _funcs(uc)]


@contract(["var_props.VarCompatObj.__init__", "var_props.VarCompatObj._get_unit_convstrs",
           "var_props.VarCompatObj.units_to_string"], conc=3000)
def capgen_unknown_units(v):
    """units that are any identifiers: converted only if both directions are in the table"""
    uc = v.repo("conversion_tools.unit_conversion")
    pe = v.repo("parse_tools").ParseSyntaxError
    pool = ["m", "mm", "K", "C", "cm", "foo", "M", "Mm", "s", "degree", "radian", "NONE", "none"]
    u1, u2 = v.name("u1", pool=pool), v.name("u2", pool=pool)
    v.assume(v.Not(v.eq(u1, u2)))
    v.assume(v.And(v.Not(v.eq(v.lower(u1), "none")), v.Not(v.eq(v.lower(u2), "none"))))
    known = _known(uc)
    both_ways = v.Or(*[v.And(v.eq(u1, a), v.eq(u2, b)) for a, b in known if (b, a) in known])
    out = v.call(_vco, v, u1, u2, "kind_phys", "kind_phys", catch=(pe,))
    v.prove(v.Iff(out.ok, both_ways), "accepted iff a conversion is known in both directions",
            lambda: "%r %r %r" % (u1, u2, out))
    if out.ok:
        v.prove(out.value.has_unit_transforms, "different units are never passed through")


@contract(["mkcap.Var.convert_to", "mkcap.Var.convert_from", "common.string_to_python_identifier"],
          conc=3000)
def prebuild_conversions(v):
    """prebuild: a scheme variable in units u1, host variable in units u2"""
    mk = v.repo("mkcap")
    u1 = v.choice("scheme_units", ALLUNITS)
    u2 = v.choice("host_units", ALLUNITS)
    kind = v.name("kind", pool=KINDS)
    if u1 == u2:
        return
    var = mk.Var(standard_name="std_name", units=u1, local_name="a", type="real", kind=kind,
                 container="MODULE_m SCHEME_s SUBROUTINE_r")
    o1 = v.call(var.convert_from, u2)
    o2 = v.call(var.convert_to, u2)
    if (u1, u2) in PAIRS:
        v.prove(o1.ok and o2.ok, "a known conversion is used", "%r %r" % (u1, u2))
    spec = conv_spec(u1, u2)
    if o1.ok or o2.ok:
        v.prove(spec is not None and spec[3], "units of different quantities are an error",
                "%r %r" % (u1, u2))
    if o1.ok and o2.ok:
        x = v.name("var", pool=NAMES)
        into = Text(v.fmt(var.actions["in"], var=x, kind="_" + kind))
        out = Text(v.fmt(var.actions["out"], var=x, kind="_" + kind))
        # in: host units -> scheme units; out: scheme units -> host units
        both(v, into, out, u2, u1, kind, kind, x, x, False)
    else:
        if not o1.ok:
            v.prove(var.actions["in"] is None, "no conversion is recorded after an error")
        if not o2.ok:
            v.prove(var.actions["out"] is None, "no conversion is recorded after an error")


@contract(["mkcap.Var.convert_to", "mkcap.Var.convert_from", "common.string_to_python_identifier"],
          conc=3000)
def prebuild_unknown_units(v):
    mk = v.repo("mkcap")
    uc = v.repo("conversion_tools.unit_conversion")
    pool = ["m", "mm", "K", "C", "cm", "foo", "M", "Mm", "s", "degree", "radian", "kg", "if"]
    u1, u2 = v.name("u1", pool=pool), v.name("u2", pool=pool)
    known = _known(uc)
    var = mk.Var(standard_name="std_name", units=u1, container="MODULE_m SCHEME_s SUBROUTINE_r")
    o1, o2 = v.call(var.convert_from, u2), v.call(var.convert_to, u2)
    v.prove(v.Iff(o1.ok, v.Or(*[v.And(v.eq(u2, a), v.eq(u1, b)) for a, b in known])),
            "conversion into the scheme iff one is known", lambda: "%r %r %r" % (u1, u2, o1))
    v.prove(v.Iff(o2.ok, v.Or(*[v.And(v.eq(u1, a), v.eq(u2, b)) for a, b in known])),
            "conversion out of the scheme iff one is known", lambda: "%r %r %r" % (u1, u2, o2))
