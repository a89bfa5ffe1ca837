"""C02: two variables are declared compatible exactly when a legal connection exists."""
from pyvc.harness import contract

TYPES = ["real", "integer", "logical", "character", "my_ddt"]
SHAPES = [
    ([], []),
    (["horizontal_dimension"], ["horizontal_dimension"]),
    (["ccpp_constant_one:horizontal_dimension"], ["horizontal_loop_begin:horizontal_loop_end"]),
    (["horizontal_loop_extent"], ["ccpp_constant_one:horizontal_dimension"]),
    (["horizontal_loop_extent", "vertical_layer_dimension"],
     ["horizontal_dimension", "ccpp_constant_one:vertical_layer_dimension"]),
    (["horizontal_dimension", "vertical_layer_dimension"],
     ["vertical_layer_dimension", "horizontal_dimension"]),
    (["horizontal_dimension", "vertical_layer_dimension", "xdim"],
     ["xdim", "horizontal_dimension", "vertical_layer_dimension"]),
    (["horizontal_dimension", "vertical_layer_dimension"],
     ["horizontal_dimension", "vertical_interface_dimension"]),
    (["horizontal_dimension"], []),
    ([], ["horizontal_dimension"]),
    (["horizontal_dimension"], ["vertical_layer_dimension"]),
    (["horizontal_dimension", "xdim"], ["horizontal_dimension", "ydim"]),
    (["horizontal_dimension", "xdim", "xdim"], ["horizontal_dimension", "xdim"]),
    (["horizontal_dimension", "xdim", "ydim"], ["horizontal_dimension", "xdim", "xdim"]),
    (["horizontal_dimension", "xdim", "xdim"], ["horizontal_dimension", "ydim", "xdim"]),
    (["ccpp_constant_one:xdim", "horizontal_dimension"], ["xdim", "horizontal_loop_extent"]),
    (["zdim:xdim", "horizontal_dimension"], ["xdim", "horizontal_dimension"]),
    (["vertical_layer_dimension"], ["vertical_layer_dimension"]),
    (["vertical_layer_dimension"], ["vertical_interface_dimension"]),
]
HORIZ = ("ccpp_constant_one:horizontal_dimension", "ccpp_constant_one:horizontal_loop_extent",
         "horizontal_loop_begin:horizontal_loop_end", "horizontal_dimension",
         "horizontal_loop_extent")
CONV = [("m", "km"), ("km", "m"), ("K", "C"), ("Pa", "hPa"), ("kg kg-1", "g kg-1")]
NOCONV = [("m", "s"), ("K", "1"), ("1", "none"), ("kg", "kg kg-1")]


def dims_match(d1, d2):
    def norm(ds):
        return sorted("H" if d in HORIZ else d if ":" in d else "ccpp_constant_one:" + d
                      for d in ds)
    return norm(d1) == norm(d2)


def env(v):
    return v.repo("framework_env").CCPPFrameworkEnv(
        None, ndict={"host_files": "", "scheme_files": "", "suites": ""},
        kind_types=["kind_phys=REAL64", "kind_dyn=REAL32", "kind_host=REAL64"])


def spec_kind(k):
    return {"kind_phys": "REAL64", "kind_dyn": "REAL32", "kind_host": "REAL64"}.get(k, k)


def char_ok(l1, l2):
    """lengths are 'len=...' strings"""
    return l1 == l2 or l1 == "len=*" or l2 == "len=*"


def make(v, s1, t1, k1, u1, d1, top1, s2, t2, k2, u2, d2, top2, **kw):
    vp = v.repo("var_props")
    pe = v.repo("parse_tools")
    return v.call(vp.VarCompatObj, s1, t1, k1, u1, d1, "loc1", top1,
                  s2, t2, k2, u2, d2, "loc2", top2, env(v), catch=(pe.CCPPError,
                                                                 pe.ParseSyntaxError,
                                                                 pe.ParseInternalError), **kw)


def verdict(v, out, stdeq, typeq, kindok, dimsok, unitsok, flags):
    """out against the specification; flags = (units differ, kinds differ, flipped, dims differ)"""
    ok = v.And(stdeq, typeq, kindok, dimsok, unitsok)
    accepted = out.ok and out.value.compat
    v.prove(v.Iff(accepted, ok), "connected iff legal",
            lambda: "%r legal=%r" % (out.exc or (out.value.compat, out.value.incompat_reason), ok))
    if not out.ok:
        return
    o = out.value
    if not o.compat:
        r = o.incompat_reason
        v.prove(v.len(r) > 0, "a reason is named for an incompatibility")
        v.prove(v.Implies(v.Not(stdeq), "standard names" in r), "the reason names the standard names")
        v.prove(v.Implies(v.Not(typeq), "types" in r), "the reason names the types")
        if stdeq is True and typeq is True:
            v.prove(v.Implies(v.And(kindok, v.Not(dimsok)), "dimensions" in r),
                    "the reason names the dimensions")
            v.prove(v.Implies(v.Not(kindok), "character" in r), "the reason names the length")
        v.prove(not o.equiv and not bool(o), "incompatible variables are not equivalent")
        return
    v.prove(o.incompat_reason == "", "no reason for compatible variables")
    udiff, kdiff, flip, ddiff = flags
    v.prove(v.Iff(o.has_unit_transforms, udiff), "unit difference flagged")
    v.prove(v.Iff(o.has_kind_transforms, kdiff), "kind difference flagged")
    v.prove(v.Iff(o.has_vert_transforms, flip), "vertical orientation difference flagged")
    v.prove(v.Iff(o.has_dim_transforms, ddiff), "dimension difference flagged")
    v.prove(v.Iff(v.Or(o.has_unit_transforms, o.has_kind_transforms), v.Or(udiff, kdiff)),
            "no transformation without a difference")
    v.prove(v.Implies(v.Or(udiff, kdiff), not o.equiv), "equivalent means nothing to transform")
    v.prove(v.Implies(v.Not(v.Or(udiff, kdiff, ddiff)), o.equiv),
            "without a difference the variables are equivalent")


@contract(["var_props.VarCompatObj.__init__", "var_props.VarCompatObj.compat",
           "var_props.VarCompatObj.equiv", "var_props.VarCompatObj.has_kind_transforms",
           "var_props.VarCompatObj.has_unit_transforms", "var_props.VarCompatObj._get_kind_convstrs"],
          conc=4000)
def scalar_names_types_kinds(v):
    """standard names, types and kinds that are any names; orientation"""
    n = ["temp", "Temp", "pres", "tendency_of_temp"]
    s1, s2 = v.name("std1", pool=n), v.name("std2", pool=n)
    t1 = v.choice("type1", ["real", "integer", "logical", "my_ddt", "complex"])
    t2 = v.choice("type2", ["real", "integer", "logical", "my_ddt", "complex"])
    ks = ["kind_phys", "kind_dyn", "kind_host", "REAL64", "REAL32", "r8", "Kind_phys"]
    k1, k2 = v.name("kind1", pool=ks), v.name("kind2", pool=ks)
    top1, top2 = v.choice("top1", [False, True]), v.choice("top2", [False, True])
    out = make(v, s1, t1, k1, "m", [], top1, s2, t2, k2, "m", [], top2)
    kdiff = v.Not(kinds_same(v, k1, k2))
    verdict(v, out, v.eq(s1, s2), t1 == t2, True, True, True,
            (False, kdiff, top1 != top2, False))


def kinds_same(v, k1, k2):
    """same kind at run time under the environment's kind definitions"""
    tab = {"kind_phys": "REAL64", "kind_dyn": "REAL32", "kind_host": "REAL64"}

    def cls(k, target):
        return v.Or(v.eq(k, target), *[v.eq(k, a) for a, b in tab.items() if b == target])
    defined = v.Or(*[v.eq(k1, a) for a in tab])
    return v.Or(v.eq(k1, k2), *[v.And(cls(k1, t), cls(k2, t)) for t in ("REAL64", "REAL32")])


@contract(["var_props.VarCompatObj.__init__", "var_props.VarCompatObj.char_kind_check"],
          conc=4000)
def character_lengths(v):
    """character variables: len=<symbolic digits or name> against len=* and each other"""
    ls = ["*", "10", "20", "512", "1", "010"]
    form = v.choice("form", ["len=", "LEN=", "Len="])
    star = v.choice("star", ["none", "first", "second", "both"])
    cs = "0123456789abcxyz_"
    a = "*" if star in ("first", "both") else v.str("len1", charset=cs, nonempty=True,
                                                    pool=ls[1:] + ["nlen"])
    b = "*" if star in ("second", "both") else v.str("len2", charset=cs, nonempty=True,
                                                     pool=ls[1:] + ["nlen"])
    s1 = v.choice("same_std", [True, False])
    out = make(v, "sname", "character", form + a, "none", [], False,
               "sname" if s1 else "other", "character", "len=" + b, "none", [], False)
    legal = v.Or(star != "none", v.eq(a, b))
    verdict(v, out, s1, True, legal, True, True, (False, False, False, False))


@contract(["var_props.VarCompatObj.char_kind_check", "var_props.VarCompatObj.__init__"], conc=300)
def character_kinds_unsupported(v):
    """anything but one len= entry is not a supported length"""
    bad = v.choice("kind", ["kind=c_char", "", "10", "len", "len=3,kind=c", "kind=c,len=3",
                            "len:3", "c_char"])
    side = v.choice("side", [0, 1, 2])
    k1, k2 = (bad if side != 1 else "len=3"), (bad if side != 0 else "len=3")
    out = make(v, "sname", "character", k1, "none", [], False,
               "sname", "character", k2, "none", [], False)
    v.prove(out.ok and not out.value.compat and len(out.value.incompat_reason) > 0,
            "an unsupported character length is an incompatibility with a reason",
            lambda: "%r %r %r" % (k1, k2, out.exc))


@contract(["var_props.VarCompatObj.__init__", "var_props.VarCompatObj._get_dim_transforms",
           "var_props.DimTransform.__init__"], conc=4000)
def shapes_units_orientation(v):
    d1, d2 = v.choice("shape", SHAPES + [(b, a) for a, b in SHAPES])
    kind = v.choice("units", ["same", "none", "conv", "noconv"])
    if kind == "same":
        u1 = u2 = "K s-1"
    elif kind == "none":
        u1, u2 = v.choice("nones", [("none", "NONE"), ("None", "none"), ("none", "none")])
    else:
        u1, u2 = v.choice("upair", CONV if kind == "conv" else NOCONV)
    t = v.choice("type", ["real", "integer"])
    kd = v.choice("kinds", [("kind_phys", "kind_phys"), ("kind_phys", "kind_dyn"),
                            ("kind_host", "kind_phys")])
    s1, s2 = v.choice("std", [("temp", "temp"), ("temp", "temp"), ("temp", "pres")])
    top1, top2 = v.choice("top1", [False, True]), v.choice("top2", [False, True])
    out = make(v, s1, t, kd[0], u1, list(d1), top1, s2, t, kd[1], u2, list(d2), top2)
    same = s1 == s2
    legal = dims_match(d1, d2)
    if legal and d1 != d2 and not any(d in HORIZ for d in d1):
        return      # reordering without a horizontal dimension: not supported, error
    verdict(v, out, same, True, True, legal, kind != "noconv",
            (kind == "conv", kd[0] != kd[1] and kd[0] != "kind_host", top1 != top2, d1 != d2))


@contract(["metavar.Var.compatible"], conc=3000)
def var_level(v):
    """Var.compatible hands over the right attributes of both variables"""
    mv = v.repo("metavar")
    pt = v.repo("parse_tools")
    e = env(v)

    def var(i):
        p = {"local_name": "loc%d" % i,
             "standard_name": v.choice("std%d" % i, ["temp", "pres"]),
             "type": v.choice("type%d" % i, ["real", "character"]),
             "units": v.choice("units%d" % i, ["m", "km", "s"]) if i == 2 else "m",
             "dimensions": v.choice("dims%d" % i, [
                 "()", "(horizontal_dimension)", "(horizontal_loop_extent)",
                 "(horizontal_dimension, vertical_layer_dimension)",
                 "(vertical_layer_dimension, horizontal_dimension)"])}
        if v.choice("top%d" % i, [False, True]):
            p["top_at_one"] = ".true."
        if p["type"] == "character":
            p["kind"] = v.choice("len%d" % i, ["len=*", "len=8", "len=9"])
        else:
            p["kind"] = v.choice("kind%d" % i, ["kind_phys", "kind_dyn"])
        x = mv.Var(p, pt.ParseSource("src%d" % i, "SCHEME" if i == 1 else "MODULE",
                                     pt.ParseContext()), e)
        return x, p
    (a, p), (b, q) = var(1), var(2)
    out = v.call(a.compatible, b, e, catch=(pt.CCPPError, pt.ParseSyntaxError))

    def dims(x):
        return [d.strip() for d in x["dimensions"][1:-1].split(",") if d.strip()]
    chars = p["type"] == "character" and q["type"] == "character"
    legal_dims = dims_match(dims(p), dims(q))
    conv = {p["units"], q["units"]} == {"m", "km"}
    verdict(v, out, p["standard_name"] == q["standard_name"], p["type"] == q["type"],
            (not chars) or char_ok(p["kind"], q["kind"]), legal_dims,
            p["units"] == q["units"] or conv,
            (conv, (not chars) and p["kind"] != q["kind"],
             p.get("top_at_one") != q.get("top_at_one"), dims(p) != dims(q)))


@contract(["mkcap.Var.compatible"], conc=4000, cases=("character", "real", "my_ddt"))
def prebuild_compatible(v, type1):
    mk = v.repo("mkcap")

    def var(i):
        return dict(standard_name=v.name("std%d" % i, pool=["temp", "pres", "Temp"]),
                    type=type1 if i == 1 else v.choice("type2", ["character", "real", "my_ddt"]),
                    kind=v.choice("kform%d" % i, [0, 1, 2, 3]),
                    dimensions=["d%d" % k for k in range(v.choice("rank%d" % i, [0, 1, 2]))],
                    units=v.choice("units%d" % i, ["m", "s"]),
                    local_name="loc%d" % i, container="c%d" % i)
    p, q = var(1), var(2)
    for i, x in ((1, p), (2, q)):
        n = v.name("kindname%d" % i, pool=["kind_phys", "r8", "n1"])
        x["kind"] = ["", n, "len=" + n, "len=*"][x["kind"]]
    res = mk.Var(**p).compatible(mk.Var(**q))
    chars = p["type"] == "character" and q["type"] == "character"

    def islen(x):
        return isinstance(x["kind"], str) is False and False or len_form(x)

    def len_form(x):
        k = x["kind"]
        return v.matches(k, "len=(?:\\*|[A-Za-z][A-Za-z0-9_]*)")
    star = v.Or(v.And(v.eq(p["kind"], "len=*"), len_form(q)),
                v.And(v.eq(q["kind"], "len=*"), len_form(p)))
    legal = v.And(v.eq(p["standard_name"], q["standard_name"]), p["type"] == q["type"],
                  len(p["dimensions"]) == len(q["dimensions"]),
                  v.Or(v.eq(p["kind"], q["kind"]), v.And(chars, star)))
    v.prove(v.Iff(res, legal), "compatible iff names, types, ranks and kinds agree",
            lambda: "%r %r -> %r" % (p, q, res))
