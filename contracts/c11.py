"""C11: every disagreement between metadata and Fortran is reported."""
import copy
import os
import tempfile

from pyvc.harness import contract, stand_in

MOD = "ccpp_capgen"


class Ctx:
    filename, line_num = "f.meta", 3

    def __format__(self, spec):
        return "f.meta:4"


class VarSpecStub:
    """assumed contract of Var as far as the comparison uses it"""

    def __init__(self, dims=(), **p):
        self.p, self.d = dict(p), list(dims)

    context = Ctx()

    def get_prop_value(self, n):
        return self.p[n]

    def get_dimensions(self):
        return self.d


class HeaderStub:
    """assumed contract of MetadataSection as far as the comparison uses it"""

    def __init__(self, title, kind, variables, dims=None):
        self.t, self.k, self.vs, self.fdims = title, kind, variables, dims

    title = property(lambda self: self.t)
    header_type = property(lambda self: self.k)

    def variable_list(self):
        return list(self.vs)

    def start_context(self):
        return ", at f.meta:1"

    def convert_dims_to_standard_names(self, var, logger=None, context=None):
        return var.get_dimensions() if self.fdims is None else self.fdims

    @property
    def has_variables(self):
        return self.vs


def var(v, dims=(), **p):
    return stand_in(VarSpecStub, v.repo("metavar").Var)(dims, **p)


def header(v, *a, **k):
    return stand_in(HeaderStub, v.repo("metadata_table").MetadataSection)(*a, **k)


def cased(v, tag, pool):
    """a Fortran name in either case; its lower case"""
    n = v.name(tag, pool=pool, lower=True)
    return v.choice("case_" + tag, ["a_", "A_"]) + n, "a_" + n


# ------------------------------------------------------------- one property
@contract(["ccpp_capgen.find_var_in_list"], cases=[0, 1, 2, 3], conc=1000,
          note="Var by the assumed contract VarSpecStub; lists of up to 3 variables, all names")
def variables_found_by_name(v, n):
    cc = v.repo(MOD)
    names = [cased(v, "n%d" % i, ["x", "y", "z"]) for i in range(n)]
    for i in range(n):
        for j in range(i):
            v.assume(v.Not(v.eq(names[i][1], names[j][1])))
    vs = [var(v, local_name=a) for a, _ in names]
    given, want = cased(v, "given", ["x", "y", "w"])
    got, ind = cc.find_var_in_list(given, vs)
    info = lambda: "%r in %r -> %r" % (given, [a for a, _ in names], ind)
    for i in range(n):
        here = v.eq(names[i][1], want)
        v.prove(v.Implies(here, v.And(got is vs[i], ind == i)), "the variable of that name is found", info)
    v.prove(v.Implies(v.And(*[v.Not(v.eq(x, want)) for _, x in names]), v.And(got is None, ind == -1)),
            "None and -1 when there is none", info)


@contract(["ccpp_capgen.var_comp", "ccpp_capgen.add_error"],
          cases=["type", "kind", "intent", "local_name", "units"], conc=1000,
          note="Var by the assumed contract VarSpecStub; all property values")
def one_property_compared(v, prop):
    cc = v.repo(MOD)
    a, la = cased(v, "m", ["real", "len=*", "x"])
    b, lb = cased(v, "f", ["real", "len=*", "x"])
    none = v.choice("absent", [(0, 0), (1, 0), (0, 1), (1, 1)])
    if none[0]:
        a = la = None
    if none[1]:
        b = lb = None
    out = cc.var_comp(prop, var(v, **{prop: a}), var(v, **{prop: b}), "tab")
    same = v.eq(la, lb) if not any(none) else none == (1, 1)
    v.prove(v.Iff(v.len(out) == 0, same), "an error exactly when the values differ, ignoring case",
            lambda: "%s %r %r -> %r" % (prop, a, b, out))
    v.prove(v.Implies(v.Not(same), prop in out), "the error names the property",
            lambda: "%s %r %r -> %r" % (prop, a, b, out))


def bound(v, tag, pool, forms=("1", "named", "int")):
    """a lower:upper pair in standard names"""
    k = v.choice("shape_" + tag, forms)
    up = v.name("up_" + tag, pool=pool, lower=True)
    lo = {"1": "ccpp_constant_one", "named": "lo_" + v.name("lo_" + tag, pool=pool, lower=True)
          if k == "named" else None, "int": "2"}[k]
    return lo, up


@contract(["ccpp_capgen.dims_comp"], cases=[(0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (2, 1), (2, 2), (3, 3)],
          conc=1500, note="Var, MetadataSection by assumed contracts; up to 3 dimensions, all names; "
          "3 dimensions: one pair arbitrary at any position, the others equal")
def dimensions_compared(v, case):
    nm, nf = case
    cc = v.repo(MOD)
    one = v.choice("where", range(3)) if nm == 3 else None
    md, fd, same = [], [], []
    for i in range(max(nm, nf)):
        if one is not None and one != i:
            md.append("ccpp_constant_one:d%d" % i)
            fd.append("ccpp_constant_one:d%d" % i)
            same.append(True)
            continue
        forms = ("1", "named", "int") if min(nm, nf) != 2 else ("1", "named")
        a = bound(v, "m%d" % i, ["nx", "nz"], forms)
        ma = a[0] + v.choice("blank%d" % i, [":", " : "] if nm < 2 else [":"]) + a[1]
        kind = v.choice("fortran%d" % i, [":", "lower", "both"] if nm != nf or one is not None or nm == 1
                        else [":", "both"])
        if kind == ":":
            fa, ok = ":", True
        else:
            b = bound(v, "f%d" % i, ["nx", "nz"], forms)
            fa = b[0] + ":" + (b[1] if kind == "both" else "")
            ok = v.eq(a[0], b[0])
            if kind == "both":
                ok = v.And(ok, v.eq(a[1], b[1]))
        md.append(ma)
        fd.append(fa)
        same.append(ok)
    md, fd = md[:nm], fd[:nf]
    out = cc.dims_comp(header(v, "tab", "scheme", [], fd), var(v, md, standard_name="std"),
                       var(v, [], local_name="x"), "tab", None)
    good = v.And(nm == nf, *same[:nm])
    v.prove(v.Iff(v.len(out) == 0, good),
            "an error exactly when the ranks differ or a declared bound differs",
            lambda: "%r %r -> %r" % (md, fd, out))


class Log:
    def __init__(self):
        self.errors = []

    def error(self, msg, *a):
        self.errors.append(msg % a if a else msg)

    def debug(self, *a):
        pass
    warning = info = debug


class Names:
    """a table of variables: assumed contract of MetadataSection.find_variable"""

    def __init__(self, v, entries):
        self.v, self.entries = v, entries

    def find_variable(self, name, use_local_name=False):
        assert use_local_name
        for loc, var_ in self.entries:
            if self.v.eq(loc, self.v.lower(name)):
                return var_
        return None


def item(v, tag, table):
    """one bound of a Fortran dimension: text, its standard name (None: unknown)"""
    k = v.choice("kind_" + tag, ["empty", "one", "int", "name"])
    if k == "empty":
        return "", ""
    if k == "one":
        return "1", "ccpp_constant_one"
    if k == "int":
        n = v.choice("val_" + tag, ["0", "7", "-3", "12"])
        return n, n
    a, la = cased(v, tag, ["x", "y", "w"])
    for loc, std in table:
        if v.eq(loc, la):
            return a, std
    return a, None


@contract(["metadata_table.MetadataSection.convert_dims_to_standard_names"], conc=2500,
          cases=["plain", "range", "two"],
          note="Var and the table by assumed contracts; up to two dimensions, all names")
def fortran_dimensions_in_standard_names(v, shape):
    mt = v.repo("metadata_table")
    mv = v.repo("metavar")
    pe = v.repo("parse_tools")
    table, entries = [], []
    for i in range(2):
        n = "a_" + v.name("tab%d" % i, pool=["x", "y", "z"], lower=True)
        s = "std%d" % i
        table.append((n, s))
        entries.append((n, var(v, standard_name=s)))
    v.assume(v.Not(v.eq(table[0][0], table[1][0])))
    dims, want = [], []
    for d in range(2 if shape == "two" else 1):
        if shape == "range":
            a, b = item(v, "lo%d" % d, table), item(v, "up%d" % d, table)
            sep = v.choice("sep", [":", " : "])
            dims.append(a[0] + sep + b[0])
            want.append(None if a[1] is None or b[1] is None else a[1] + ":" + b[1])
        else:
            a = item(v, "d%d" % d, table)
            if a[0] == "":
                dims.append(":")
                want.append(":")
            else:
                dims.append(a[0])
                want.append(None if a[1] is None else "ccpp_constant_one:" + a[1])
    logged = v.choice("logger", [False, True])
    log = Log() if logged else None
    fvar = var(v, dims, local_name="x")
    out = v.call(mt.MetadataSection.convert_dims_to_standard_names, Names(v, entries), fvar,
                 logger=log, catch=(pe.CCPPError,))
    info = lambda: "%r -> %r" % (dims, out)
    unknown = any(w is None for w in want)
    if not unknown:
        v.prove(out.ok, "dimensions of known names are accepted", info)
        if not out.ok:
            return
        v.prove(len(out.value) == len(want), "one result per dimension", info)
        for g, w in zip(out.value, want):
            v.prove(v.eq(g, w), "each bound becomes the standard name of its variable", info)
    elif logged:
        v.prove(len(log.errors) > 0, "an unknown dimension is logged", info)
        if out.ok:
            for g, w in zip(out.value, want):
                if w is None:
                    v.prove(v.Not(v.isin(g, ["std0", "std1", "ccpp_constant_one:std0", ":",
                                             "ccpp_constant_one:std1"])),
                            "an unknown dimension equals no known dimension", info)
    else:
        v.prove(not out.ok, "an unknown dimension is an error", info)


# ------------------------------------------------------------------ a table
PROPS = ["type", "kind", "intent", "dimensions"]


def full_var(v, name, std, optional, wrong=None):
    """a variable whose attribute <wrong> differs from that of the others"""
    p = {"type": "real", "kind": "kind_phys", "intent": "in"}
    if wrong in p:
        p[wrong] = "other"
    return var(v, ["ccpp_constant_one:n"] if wrong != "dimensions" else [], local_name=name, standard_name=std,
               optional=optional, **p)


LENS = [(0, 0), (1, 0), (0, 1), (1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2)]


def expected(v, kind, mn, mopt, fn, fopt, agree, arr):
    """the specification: lists of lower-case names and optional flags; agree[i]: the other
    attributes of metadata variable i are those of the Fortran variable of its name"""
    def fidx(i):
        for j in range(len(fn)):
            if v.eq(mn[i], fn[j]):
                return j
        return None
    at = [None if arr[i] else fidx(i) for i in range(len(mn))]
    ok = True
    for i in range(len(mn)):
        if arr[i]:
            ok = ok and kind != "scheme"
            continue
        j = at[i]
        if j is None:
            return False
        ok = v.And(ok, mopt[i] == fopt[j], agree[i])
    if kind == "scheme":
        # same arguments in the same order, but optional ones may be left out of the metadata
        order = [j for j in range(len(fn)) if j in at or not fopt[j]]
        if order != at:
            return False
    return ok


@contract(["ccpp_capgen.compare_fheader_to_mheader"], conc=1500, sym_s=400,
          cases=[(k, a, b, o) for k in ("scheme", "module", "ddt") for a, b in LENS
                 for o in (range(2 ** a) if k == "scheme" and max(a, b) > 2 else [None])],
          note="Var, MetadataSection by assumed contracts; "
          "tables of up to 3 variables, all names, optional flags and verdicts")
def names_order_and_optional(v, case):
    kind, nm, nf, opt = case
    cc = v.repo(MOD)
    mn = [v.name("m%d" % i, pool=["x", "y", "z"], lower=True) for i in range(nm)]
    fn = [v.name("f%d" % i, pool=["x", "y", "z"], lower=True) for i in range(nf)]
    for xs in (mn, fn):
        for i in range(len(xs)):
            for j in range(i):
                v.assume(v.Not(v.eq(xs[i], xs[j])))
    mopt = [kind == "scheme" and bool(v.choice("mopt%d" % i, [0, 1]) if opt is None else opt >> i & 1)
            for i in range(nm)]
    fopt = [kind == "scheme" and bool(v.choice("fopt%d" % i, [0, 1])) for i in range(nf)]
    # in larger tables the attribute which may differ is that of the last variable (each position in
    # the smaller ones)
    bad = v.choice("wrong", [None] + ([(nm - 1, "kind")] if max(nm, nf) > 2 else
                                      [(i, p) for i in range(nm) for p in PROPS
                                       if kind == "scheme" or p != "intent"]))
    ms = [full_var(v, n, "std", o, bad[1] if bad and bad[0] == i else None)
          for i, (n, o) in enumerate(zip(mn, mopt))]
    fs = [full_var(v, n, "fstd", o) for n, o in zip(fn, fopt)]
    out = v.call(cc.compare_fheader_to_mheader, header(v, "tab", kind, ms), header(v, "tab", kind, fs), Log())
    info = lambda: "%s %r optional %r / %r optional %r, wrong %r -> %r" % (kind, mn, mopt, fn, fopt, bad, out)
    v.prove(out.ok, "tables of one type are compared", info)
    if not out.ok:
        return
    want = expected(v, kind, mn, mopt, fn, fopt, [bad is None or bad[0] != i for i in range(nm)], [False] * nm)
    v.prove(v.Iff(v.len(out.value) == 0, want), "accepted exactly when the tables match", info)


@contract(["ccpp_capgen.compare_fheader_to_mheader"], conc=1500,
          cases=[(k, n, p) for k in ("module", "ddt", "scheme") for n in ((2, 3) if k == "module" else (2,))
                 for p in range(n)],
          note="as above, one array reference at each position of the metadata")
def array_references_skipped(v, case):
    kind, n, where = case
    cc = v.repo(MOD)
    mn = [v.name("m%d" % i, pool=["x", "y", "z"], lower=True) for i in range(n)]
    mn[where] = mn[where] + v.choice("index", ["(:,1)", "(1)", "(:,index_of_x)"])
    nf = v.choice("nf", [n - 1, n])
    fn = [v.name("f%d" % i, pool=["x", "y", "z"], lower=True) for i in range(nf)]
    for xs in (mn, fn):
        for i in range(len(xs)):
            for j in range(i):
                v.assume(v.Not(v.eq(xs[i], xs[j])))
    bad = v.choice("wrong", [None] + list(range(n)))
    ms = [full_var(v, x, "std", False, "kind" if bad == i else None) for i, x in enumerate(mn)]
    fs = [full_var(v, x, "fstd", False) for x in fn]
    out = v.call(cc.compare_fheader_to_mheader, header(v, "tab", kind, ms), header(v, "tab", kind, fs), Log())
    info = lambda: "%s %r / %r, wrong %r -> %r" % (kind, mn, fn, bad, out)
    v.prove(out.ok, "tables of one type are compared", info)
    if not out.ok:
        return
    want = expected(v, kind, mn, [False] * n, fn, [False] * nf, [bad != i for i in range(n)],
                    [i == where for i in range(n)])
    if kind != "scheme":
        v.prove(v.Iff(v.len(out.value) == 0, want), "accepted exactly when the other variables match", info)
    else:
        v.prove(v.Implies(v.len(out.value) == 0, v.And(*[v.isin(x, fn) for i, x in enumerate(mn) if i != where])),
                "no argument is lost", info)


KINDS = ["scheme", "module", "ddt", "host"]


@contract(["ccpp_capgen.compare_fheader_to_mheader"], cases=[(a, b) for a in KINDS for b in KINDS[:3]], conc=200)
def table_types_agree(v, case):
    mk, fk = case
    cc = v.repo(MOD)
    pe = v.repo("parse_tools")
    out = v.call(cc.compare_fheader_to_mheader, header(v, v.name("title"), mk, []),
                 header(v, "tab", fk, []), None, catch=(pe.CCPPError,))
    legal = mk == fk or (mk == "host" and fk in ("module", "scheme"))
    v.prove(v.Iff(out.ok, legal), "tables of different types are rejected, save host tables in a module "
            "or subroutine", lambda: "%r -> %r" % (case, out))


@contract(["ccpp_capgen.check_fortran_against_metadata", "ccpp_capgen.compare_fheader_to_mheader"],
          conc=2000, cases=[(a, b) for a in range(3) for b in range(3)],
          note="Var, MetadataSection by assumed contracts; up to 2 tables of each kind, all titles")
def every_table_checked(v, case):
    nm, nf = case
    cc = v.repo(MOD)
    pe = v.repo("parse_tools")
    mt = [v.name("m%d" % i, pool=["x", "y", "z"], lower=True) for i in range(nm)]
    ft = [v.name("f%d" % i, pool=["x", "y", "z"], lower=True) for i in range(nf)]
    for xs in (mt, ft):
        for i in range(len(xs)):
            for j in range(i):
                v.assume(v.Not(v.eq(xs[i], xs[j])))
    full = [bool(v.choice("full%d" % i, [0, 1])) for i in range(nf)]
    # no variables; one whose name is made of the title; one which no Fortran table has
    mode = [v.choice("mode%d" % i, ["none", "same", "bad"]) for i in range(nm)]
    ms = [header(v, t, "module", [] if k == "none" else
                 [full_var(v, "v_" + t if k == "same" else "9", "std", False)]) for t, k in zip(mt, mode)]
    fs = [header(v, t, "module", [full_var(v, "v_" + t, "fstd", False)] if u else []) for t, u in zip(ft, full)]
    out = v.call(cc.check_fortran_against_metadata, ms, list(fs), "f.meta", "f.F90", Log(), catch=(pe.CCPPError,))
    info = lambda: "%r %r / %r (variables %r) -> %r" % (mt, mode, ft, full, out)
    want = True
    for i in range(nm):
        want = v.And(want, v.isin(mt[i], ft), mode[i] != "bad")
        for j in range(nf):
            if mode[i] == "same" and not full[j]:
                want = v.And(want, v.Not(v.eq(mt[i], ft[j])))
    for j in range(nf):
        if full[j]:
            want = v.And(want, v.isin(ft[j], mt))
    v.prove(v.Iff(out.ok, want), "accepted exactly when each table has its counterpart and every pair matches", info)


# ----------------------------------------------------------- whole files
def meta_text(kind, title, args):
    prop = title[:-len("_run")] if kind == "scheme" else title
    s = ("[ccpp-table-properties]\n  name = %s\n  type = %s\n[ccpp-arg-table]\n  name = %s\n  type = %s\n"
         % (prop, kind, title, kind))
    for a in args:
        s += "[ %s ]\n  standard_name = %s\n  units = %s\n  dimensions = (%s)\n  type = %s\n" % (
            a["name"], a["std"], a["units"], ",".join(a["dims"]), a["type"])
        if a["kind"]:
            s += "  kind = %s\n" % a["kind"]
        if kind == "scheme":
            s += "  intent = %s\n" % a["intent"]
        if a["optional"]:
            s += "  optional = True\n"
    return s


def decl(kind, a, style):
    t, attrs = a["type"], []
    if a["kind"]:
        k = a["kind"]
        if t == "real" and style["kind="]:
            k = "kind=" + k
        t += "(%s)" % k
    if kind == "scheme":
        attrs.append("intent(%s)" % a["intent"])
    if a["optional"]:
        attrs.append("optional")
    d = "(%s)" % ",".join(a["fdims"]) if a["fdims"] else ""
    if d and style["dimension"]:
        attrs.insert(style["first"] and len(attrs), "dimension" + d)
        d = ""
    if style["swap"]:
        attrs.reverse()
    s = ", ".join([t] + attrs) + " :: " + a["name"] + d + style["tail"]
    return "   " + (s.upper() if style["upper"] else s) + style["comment"] + "\n"


def fort_text(kind, title, args, style, order=None):
    mark = ("!> \\section arg_table_%s  Argument Table\n!! \\htmlinclude arg_table_%s.html\n!!\n" % (title, title))
    body = "".join(decl(kind, a, style) for a in (order or args))
    if kind == "scheme":
        m = title[:-len("_run")]
        return ("module %s\n  implicit none\n  private\n  public :: %s\ncontains\n%s  subroutine %s(%s)\n%s"
                "  end subroutine %s\nend module %s\n" % (m, title, mark, title, ", ".join(a["name"] for a in args),
                                                          body, title, m))
    if kind == "ddt":
        return "module m_%s\n  implicit none\n%s  type %s\n%s  end type %s\nend module m_%s\n" % (
            title, mark, title, body, title, title)
    return "module %s\n%s  implicit none\n%send module %s\n" % (title, mark, body, title)


def arg(name, std, type_, kind=None, intent="in", dims=(), units="1", optional=False):
    return dict(name=name, std=std, type=type_, kind=kind, intent=intent, dims=list(dims), units=units,
                optional=optional, fdims=[":"] * len(dims))


def base_args(kind):
    h = "horizontal_loop_extent" if kind == "scheme" else "horizontal_dimension"
    z = "vertical_layer_dimension"
    xs = [arg("ncol", h, "integer", units="count"),
          arg("t", "air_temperature", "real", "kind_phys", "inout", [h, z], "K"),
          arg("nz", z, "integer", units="count"),
          arg("q", "specific_humidity", "real", "kind_phys", "in", [h], optional=kind == "scheme"),
          arg("flag", "some_flag", "logical", None, "in", optional=kind == "scheme"),
          arg("title", "some_title", "character", "len=*" if kind == "scheme" else "len=16", "in", units="none"),
          arg("errmsg", "ccpp_error_message", "character", "len=512", "out", units="none"),
          arg("errflg", "ccpp_error_code", "integer", None, "out")]
    if kind != "scheme":
        xs = [x for x in xs if not x["name"].startswith("err")]
    return xs


NEUTRAL = ["none", "1:n", "n", "1:", "case", "extra optional", "omit optional", "order", "extra"]
ATTRS = ["rename", "type", "kind", "intent", "rank+", "rank-", "dim", "dim 0:", "dim const", "dim unknown",
         "optional", "missing meta", "missing fort", "swap", "extra"]


def change(kind, what, i, m, f):
    """apply <what> to argument i: True/False - the tables still match / no longer match; None: not
    applicable"""
    a = f[i]
    if what == "none":
        return True
    if what in ("1:n", "n", "1:"):
        if not a["dims"]:
            return None
        names = ["ncol", "nz"][:len(a["dims"])]
        a["fdims"] = [{"1:n": "1:" + n, "n": n, "1:": "1:"}[what] for n in names]
        return True
    if what == "case":
        a["name"] = a["name"].upper()
        return True
    if what in ("extra", "extra optional"):
        opt = what == "extra optional"
        if opt and kind != "scheme":
            return None
        f.insert(i, arg("xx", "xx", "real", "kind_phys", "in", ["q"] * 2, optional=opt))
        return opt or kind != "scheme"
    if what == "omit optional":
        if not a["optional"]:
            return None
        del m[i]
        return True
    if what == "order":
        if kind == "scheme":
            return None
        f.append(f.pop(i))
        return True
    if what == "rename":
        a["name"] = a["name"] + "x"
    elif what == "type":
        a["type"], a["kind"] = ("logical" if a["type"] != "logical" else "integer"), None
    elif what == "kind":
        a["kind"] = {"kind_phys": "kind_dyn", "len=512": "len=64", "len=*": "len=512", None: "kind_i",
                     "len=16": "len=8"}[a["kind"]]
    elif what == "intent":
        if kind != "scheme":
            return None
        a["intent"] = {"in": "inout", "inout": "out", "out": "in"}[a["intent"]]
    elif what == "rank+":
        a["fdims"] = a["fdims"] + [":"]
    elif what.startswith("dim") or what == "rank-":
        if not a["dims"]:
            return None
        if what == "rank-":
            a["fdims"] = a["fdims"][1:]
        else:
            a["fdims"][-1] = {"dim": "nz" if len(a["dims"]) == 1 else "ncol", "dim 0:": "0:", "dim const": "5",
                              "dim unknown": "nowhere"}[what]
    elif what == "optional":
        if kind != "scheme":
            return None
        a["optional"] = not a["optional"]
    elif what == "missing meta":
        if a["optional"] or kind != "scheme":
            return None
        del m[i]
    elif what == "missing fort":
        del f[i]
    elif what == "swap":
        if kind != "scheme" or i + 1 >= len(f):
            return None
        f.insert(i, f.pop(i + 1))
    return False


def env(v):
    import logging
    log = logging.getLogger("verif_c11")
    log.setLevel(logging.CRITICAL)
    return v.repo("framework_env").CCPPFrameworkEnv(log, ndict={"host_files": "", "scheme_files": "", "suites": ""})


def verdict_of(v, kind, mtext, ftext):
    cc = v.repo(MOD)
    pe = v.repo("parse_tools")
    with tempfile.TemporaryDirectory() as d:
        b = os.path.join(d, "f")
        with open(b + ".meta", "w") as f:
            f.write(mtext)
        with open(b + ".F90", "w") as f:
            f.write(ftext)
        if kind == "scheme":
            return v.call(cc.parse_scheme_files, [b + ".meta"], env(v), catch=(pe.CCPPError,))
        return v.call(cc.parse_host_model_files, [b + ".meta"], "h", env(v), catch=(pe.CCPPError,))


PLAIN = {"kind=": False, "dimension": False, "first": False, "swap": False, "tail": "", "upper": False, "comment": ""}
TITLE = {"scheme": "foo_run", "module": "modx", "ddt": "ddtx"}
FILES = ["ccpp_capgen.parse_scheme_files", "ccpp_capgen.parse_host_model_files",
         "parse_fortran_file.parse_fortran_file", "parse_fortran.parse_fortran_var_decl",
         "metadata_table.parse_metadata_file", "ccpp_capgen.check_fortran_against_metadata"]


@contract(FILES, sym=False, conc=1500, budget=40, cases=["scheme", "module", "ddt"],
          note="bounded: one file pair with one change at one of 8 (6) variables, several declaration styles")
def single_changes_in_files(v, kind):
    m = base_args(kind)
    n = v.choice("n", [len(m), len(m), 5])
    m = m[:n]
    f = copy.deepcopy(m)
    i = v.choice("at", range(n))
    what = v.choice("change", NEUTRAL + ATTRS)
    style = {"kind=": v.choice("kind=", [False, True]), "dimension": v.choice("dimension", [False, True]),
             "first": v.choice("first", [False, True]), "swap": v.choice("swap", [False, True]), "tail": "",
             "upper": v.choice("upper", [False, False, True]),
             "comment": v.choice("comment", ["", " ! x(:), 'y", " !< [m]"])}
    ok = change(kind, what, i, m, f)
    if ok is None:
        v.assume(False)
    mtext, ftext = meta_text(kind, TITLE[kind], m), fort_text(kind, TITLE[kind], f, style)
    out = verdict_of(v, kind, mtext, ftext)
    v.prove(v.Iff(out.ok, ok), "accepted" if ok else "a single difference is reported",
            lambda: "%s of variable %d in %s: %r\n%s\n%s" % (what, i, kind, out, mtext, ftext))


R, RA = ("real", "kind_phys"), ("nn",)
DECLS = {
    "scheme": [
        (R, (), "in", False, ["real(kind_phys), intent(in) :: x", "real(kind=kind_phys), intent(in) :: x",
                              "REAL(KIND_PHYS), INTENT(IN) :: X", "real(kind_phys),intent(in)::x",
                              "real (kind_phys) , intent ( in ) :: x ! c",
                              "real( kind = kind_phys ), intent(in) :: x", "real(kind_phys), intent(in) :: x ! a::b",
                              "real(kind_phys), intent(in) :: x\n  integer :: loc(3) = [1, 2, 3]"]),
        (R, RA, "in", False, ["real(kind_phys), intent(in), dimension(:) :: x", "real(kind_phys), intent(in) :: x(n)",
                              "real(kind_phys), dimension(n), intent(in) :: x",
                              "real(kind_phys), intent(in) :: x ( n )", "real(kind_phys), intent(in) :: x( : )",
                              "real(kind_phys), intent(in), dimension( 1 : n ) :: x",
                              "real(kind_phys), intent(in), target, dimension(:) :: x",
                              "real(kind_phys), contiguous, intent(in), dimension(:) :: x",
                              "real(kind_phys), dimension(2,2), intent(in) :: x(n)"]),
        (R, (), "inout", False, ["real(kind_phys), intent(inout) :: x", "real(kind_phys), intent(in out) :: x",
                                 "real(kind_phys), intent(InOut) :: x"]),
        (R, (), "in", True, ["real(kind_phys), intent(in), optional :: x", "real(kind_phys), OPTIONAL, intent(in) :: x"]),
        (("character", "len=*"), (), "in", False, [
            "character(len=*), intent(in) :: x", "character(*), intent(in) :: x", "character(len = *), intent(in) :: x",
            "CHARACTER(LEN=*), INTENT(IN) :: X"]),
        (("character", "len=512"), (), "in", False, [
            "character(len=512), intent(in) :: x", "character(512), intent(in) :: x", "character*512, intent(in) :: x"]),
        (("character", "len=1"), (), "in", False, ["character, intent(in) :: x", "character(1), intent(in) :: x"]),
        (("logical", None), (), "in", False, ["logical, intent(in) :: x", "LOGICAL,INTENT(IN)::X"]),
    ],
    "module": [
        (R, RA, None, False, [
            "real(kind_phys), allocatable :: x(:)", "real(kind_phys) :: x(n) = (/1.,2.,3.,4.,5./)",
            "real(kind_phys) :: x(n) = [1.,2.,3.]", "real(kind_phys), pointer :: x(:) => null()",
            "real(kind_phys), public, allocatable, target, dimension(:) :: y, x",
            "real(kind_phys), dimension(2) :: y = (/ 1., 2. /), x(n)",
            "real(kind_phys) :: y(3) = [1.,2.,3.], x(n)", "real(kind_phys) :: y = max(1., 2.), x(n) = 0.0_kind_phys",
            "real(kind_phys) :: y(2,1) = reshape([1.,2.], shape=[2,1]), x(n)",
            "real(kind_phys), dimension(:), allocatable :: x", "real(kind_phys) x(n)",
            "real(kind_phys) :: y(2) = [real :: 1., 2.], x(n)"]),
        (("character", "len=16"), RA, None, False, [
            "character(len=16) :: x(n)", 'character(len=16) :: t = "a,b", x(n)', "character(len=16) :: t = 'it''s(', x(n)",
            "character(len=16) :: x(n) = (/ 'a,b', 'c(d' /)", "character(len=16) :: t = 'a!b', x(n) ! c",
            'character(len=16) :: t = "a::b", x(n)']),
    ],
    "ddt": [
        (R, RA, None, False, [
            "real(kind_phys), allocatable :: x(:)", "real(kind_phys), pointer :: x(:) => null()",
            "real(kind_phys), pointer, dimension(:) :: x=>null(), y=>null()", "real(kind_phys) :: x(n)",
            "real(kind_phys),allocatable :: x(:) !< doc"]),
        (R, (), None, False, ["real(kind_phys) :: x = 1.0", "real(kind_phys) :: y, x, z", "real(kind_phys) x"]),
    ],
}


@contract(FILES, sym=False, conc=600, budget=30, cases=["scheme", "module", "ddt"],
          note="bounded: the listed declaration forms, alone and with one wrong attribute in the metadata")
def declaration_forms(v, kind):
    (typ, knd), dims, intent, opt, texts = v.choice("form", DECLS[kind])
    text = v.choice("text", texts)
    x = arg("x", "xx", typ, knd, intent or "in", dims, "none" if typ == "character" else "1", opt)
    wrong = v.choice("wrong", [None, None, "kind", "type", "intent", "rank", "optional", "name"])
    if wrong == "kind":
        x["kind"] = "kind_o" if knd is None or not knd.startswith("len") else "len=33"
    elif wrong == "type":
        x["type"], x["kind"] = "integer", None
    elif wrong == "intent":
        if kind != "scheme":
            v.assume(False)
        x["intent"] = "out"
    elif wrong == "rank":
        x["dims"] = x["dims"] + ["nn"]
    elif wrong == "optional":
        if kind != "scheme":
            v.assume(False)
        x["optional"] = not opt
    elif wrong == "name":
        x["name"] = "xo"
    n = arg("n", "nn", "integer", None, "in", (), "count")
    margs = [n, x]
    ndecl = "integer, intent(in) :: n" if kind == "scheme" else v.choice("n", ["integer :: n", "integer :: m=2, n = 5"])
    f = fort_text(kind, TITLE[kind], [], PLAIN)
    end = {"scheme": "  end subroutine", "module": "end module", "ddt": "  end type"}[kind]
    f = f.replace(end, "   %s\n   %s\n%s" % (ndecl, text, end), 1).replace("foo_run()", "foo_run(n, x)")
    m = meta_text(kind, TITLE[kind], margs)
    out = verdict_of(v, kind, m, f)
    v.prove(v.Iff(out.ok, wrong is None), "accepted" if wrong is None else "the wrong %s is reported" % wrong,
            lambda: "%r, wrong %r: %r\n%s\n%s" % (text, wrong, out, m, f))


@contract(FILES, sym=False, conc=200, budget=10, note="bounded: two files with tables of given names")
def duplicate_tables_reported(v):
    cc = v.repo(MOD)
    pe = v.repo("parse_tools")
    kind = v.choice("kind", ["scheme", "module", "ddt"])
    same = v.choice("same", [False, True])
    first, second = TITLE[kind], TITLE[kind] if same else "other" + TITLE[kind]
    with tempfile.TemporaryDirectory() as d:
        for nm, t in (("a", first), ("b", second)):
            with open(os.path.join(d, nm + ".meta"), "w") as f:
                f.write(meta_text(kind, t, base_args(kind)))
            with open(os.path.join(d, nm + ".F90"), "w") as f:
                f.write(fort_text(kind, t, base_args(kind), PLAIN))
        files = [os.path.join(d, x) for x in ("a.meta", "b.meta")]
        if kind == "scheme":
            out = v.call(cc.parse_scheme_files, files, env(v), catch=(pe.CCPPError,))
        else:
            # the standard names of two module tables must differ: only the duplicate case is decided
            if not same:
                v.assume(False)
            out = v.call(cc.parse_host_model_files, files, "h", env(v), catch=(pe.CCPPError,))
    v.prove(v.Iff(out.ok, not same), "a second table of the same name is reported", lambda: "%r %r" % (kind, out))
    if same and not out.ok:
        v.prove(all(x in str(out.exc) for x in (first.replace("_run", ""), "a.meta", "b.meta")), "the error names the table and both files",
                lambda: repr(out))
