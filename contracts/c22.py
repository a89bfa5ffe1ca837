"""C22: generated declarations state what the metadata states."""
import re
from pyvc.harness import contract
from contracts.c09 import env, errors

TYPES = [("real", None), ("real", "kind_phys"), ("integer", None), ("integer", "i8"), ("logical", None),
         ("character", "len=*"), ("character", "len=64"), ("complex", "kind_phys"), ("my_type_t", None)]
DIMS = ["horizontal_dimension", "vertical_layer_dimension", "number_of_tracers"]
LOCAL = {"horizontal_dimension": "ncol", "vertical_layer_dimension": "nz", "number_of_tracers": "ntr",
         "vertical_interface_dimension": "nzi", "first_index": "i0"}
DECL = re.compile(r"(?P<spec>\w+(\((?P<kind>[^()]*)\))?)\s*(?P<attrs>(,\s*\w+(\(\w+\))?\s*)*)::\s*")
ALPH = "abz019_ABZ"


class Out:
    """an output file as far as declarations are concerned: the statements written"""
    def __init__(self):
        self.lines = []

    def write(self, text, indent):
        self.lines.append((text, indent))


def make(v, name, typ, kind, dims, **props):
    ps = v.repo("parse_source")
    d = {"local_name": name, "standard_name": "some_quantity", "units": "m", "dimensions": list(dims), "type": typ}
    if kind:
        d["kind"] = kind
    if typ == "my_type_t":
        del d["type"]
        d["ddt_type"] = typ
        pc = v.repo("parse_checkers")
        if typ not in pc.registered_fortran_ddt_names():
            pc.register_fortran_ddt_name(typ)
    d.update({k: x for k, x in props.items() if x})
    return v.repo("metavar").Var(d, ps.ParseSource("src", "scheme" if props.get("intent") else "module", ps.ParseContext(3, "f.meta")), env(v))


def wanted(typ, kind, rank, dummy, allocatable, target, add_intent, props):
    """the attributes of the declaration, or None if there is no legal one"""
    intent = props.get("intent") or add_intent
    if props.get("protected") and allocatable:
        return None
    if not dummy:
        out = set()
        if allocatable and (rank or props.get("polymorphic")):
            out.add("allocatable")
        if target or props.get("target"):
            out.add("target")
        return out
    if intent is None:
        return None
    if props.get("protected"):
        intent = "in"
    out = {"intent(%s)" % intent}
    if target or props.get("target"):
        out.add("target")
    if props.get("optional"):
        out |= {"optional", "target"}
    if props.get("allocatable") and intent != "in":
        out.add("allocatable")
    return out


def read(v, text, info):
    """(spec, attributes, name, bounds) of a declaration statement"""
    m = DECL.match(text)
    v.prove(m is not None, "a declaration statement", info)
    attrs = [re.sub(r"\s", "", a) for a in m.group("attrs").split(",") if a.strip()]
    v.prove(len(attrs) == len(set(attrs)), "every attribute once", info)
    rest = re.fullmatch(r"(\w+)\s*(\(([^()]*)\))?\s*(=> null\(\))?", text[m.end():])
    v.prove(rest is not None, "one variable", info)
    return (m.group("spec"), set(attrs), rest.group(1),
            [b.strip() for b in rest.group(3).split(",")] if rest.group(2) else [], rest.group(4))


CONTEXTS = [dict(), dict(allocatable=True), dict(allocatable=True, target=True), dict(target=True), dict(dummy=True),
            dict(dummy=True, target=True), dict(dummy=True, add_intent="in"), dict(dummy=True, add_intent="out")]


def properties(v, dummy):
    p = {"intent": v.choice("intent", ["in", "out", "inout", None] if dummy else [None, "inout"]),
         "optional": v.choice("optional", [False, True]), "target": v.choice("tprop", [False, True])}
    x = v.choice("extra", [None, "protected", "allocatable"])
    if x:
        p[x] = True
    v.assume(not (x == "protected" and p["intent"] in ("out", "inout")))
    return p


def names(v, missing=()):
    """a dictionary with the dimensions"""
    ps = v.repo("parse_source")
    d = v.repo("metavar").VarDictionary("group", env(v))
    for n, loc in LOCAL.items():
        if n not in missing:
            d.add_variable(v.repo("metavar").Var(
                {"local_name": loc, "standard_name": n, "units": "count", "dimensions": [], "type": "integer"},
                ps.ParseSource("src", "module", ps.ParseContext(3, "h.meta")), env(v)), env(v))
    return d


def spec_of(typ, kind, props):
    if typ == "my_type_t":
        return ("class" if props.get("polymorphic") else "type") + "(my_type_t)"
    if typ == "real" and not kind:
        kind = "kind_phys"            # (the default kind of reals)
    return typ + ("(%s)" % kind if kind else "")


def written(v, var, wdict, ctx):
    out = Out()
    return out, v.call(var.write_def, out, 2, wdict, catch=errors(v), **ctx)


@contract(["metavar.Var.write_def"], cases=[(t, k, r) for t, k in TYPES for r in range(4)], conc=60,
          note="every combination of attributes and context; ranks up to three; the name is fixed (see any_name)")
def declarations(v, case):
    """type, kind, attributes, name and rank of every declaration"""
    typ, kind, rank = case
    ctx = v.choice("context", CONTEXTS)
    props = properties(v, ctx.get("dummy"))
    if typ == "my_type_t" and v.choice("poly", [False, True]):
        props["polymorphic"] = True
    dims = DIMS[:rank]
    wdict = names(v)
    out, r = written(v, make(v, "qqqqq", typ, kind, dims, **props), wdict, ctx)
    want = wanted(typ, kind, rank, ctx.get("dummy"), ctx.get("allocatable"), ctx.get("target"),
                  ctx.get("add_intent"), props)
    info = lambda: "%s %s rank %d %r %r -> %r %r" % (typ, kind, rank, props, ctx, r, out.lines)
    if want is None:
        v.prove(not r.ok and not out.lines, "an illegal declaration is an error", info)
        return
    v.prove(r.ok, "a legal declaration is written", info)
    v.prove(len(out.lines) == 1 and out.lines[0][1] == 2, "one statement, where it is asked for", info)
    text = out.lines[0][0]
    spec, attrs, shown, bounds, _ = read(v, text, info)
    v.prove(spec == spec_of(typ, kind, props), "the type and kind of the variable", info)
    v.prove(attrs == want, "the attributes that are asked for", lambda: "%s, want %r" % (info(), sorted(want)))
    v.prove(shown == "qqqqq", "the name of the variable", info)
    if ctx.get("dummy") or ctx.get("allocatable"):
        v.prove(bounds == [":"] * rank, "assumed or deferred shape of the variable's rank", info)
    else:
        v.prove(bounds == [LOCAL[d] for d in dims] or bounds == ["1:" + LOCAL[d] for d in dims],
                "the bounds of the variable", info)


@contract(["metavar.Var.write_def"], cases=[(t, k, r) for t, k in TYPES for r in (0, 2)], conc=60,
          note="names of seven characters, every character symbolic")
def any_name(v, case):
    """the declaration is the same for every name"""
    typ, kind, rank = case
    name = "T" + v.chars("name", 6, ALPH)
    ctx = v.choice("context", [dict(), dict(allocatable=True), dict(dummy=True)])
    props = {"intent": v.choice("intent", ["in", "inout"]), "optional": v.choice("optional", [False, True])}
    wdict = names(v)
    out, r = written(v, make(v, "qqqqqqq", typ, kind, DIMS[:rank], **props), wdict, ctx)
    out2, r2 = written(v, make(v, name, typ, kind, DIMS[:rank], **props), wdict, ctx)
    info = lambda: "%r %r -> %r and %r" % (props, ctx, out.lines, out2.lines)
    v.prove(r.ok and r2.ok and len(out2.lines) == 1, "one statement", info)
    text = out.lines[0][0]
    at = text.rindex("qqqqqqq")
    v.prove(v.eq(out2.lines[0][0], text[:at] + name + text[at + 7:]), "the same declaration, for every name", info)


@contract(["metavar.Var.write_def"], conc=60)
def missing_dimension(v):
    """explicit bounds need a variable for every dimension"""
    rank = v.choice("rank", [1, 2, 3])
    gone = [d for d in DIMS[:rank] if v.choice("gone " + d, [False, True])]
    wdict = names(v, gone)
    out, r = written(v, make(v, "x", "real", None, DIMS[:rank]), wdict, {})
    info = lambda: "without %r -> %r %r" % (gone, r, out.lines)
    v.prove(r.ok == (not gone), "a dimension that cannot be resolved is an error", info)
    v.prove(r.ok or not out.lines, "nothing is written", info)


@contract(["metavar.Var.write_def"], cases=["q(:,1)", "q(:,:,index_of_q)", "q(i, j)", "q(1)"], conc=20)
def array_reference(v, local):
    """a local name that is an array reference declares the array"""
    out, r = written(v, make(v, local, "real", None, ["horizontal_dimension"], intent="in"), names(v), dict(dummy=True))
    info = lambda: "%r -> %r %r" % (local, r, out.lines)
    v.prove(r.ok and len(out.lines) == 1, "a declaration", info)
    v.prove(read(v, out.lines[0][0], info)[2] == "q", "the name of the array", info)


@contract(["metavar.Var.write_ptr_def"], cases=[(t, k, n) for t, k in TYPES for n in (1, 5, 24, 63)], conc=60,
          note="names of 1, 5, 24 and 63 characters, every character symbolic")
def pointers(v, case):
    """type, kind, name and rank of a local pointer, which starts as null"""
    typ, kind, n = case
    name = v.chars("name", n, ALPH[:3])
    rank = v.choice("rank", [0, 1, 3])
    var = make(v, "x", typ, kind, DIMS[:rank], intent="inout", optional=True)
    dimstr = "(%s)" % ",".join(":" * rank) if rank else ""
    vtype = "type" if typ == "my_type_t" else typ
    texts = []
    for nm in ("q" * n, name):
        out = Out()
        r = v.call(var.write_ptr_def, out, 3, nm, var.get_prop_value("kind"), dimstr, vtype, catch=errors(v))
        v.prove(r.ok and len(out.lines) == 1 and out.lines[0][1] == 3, "one statement", lambda: repr(r))
        texts.append(out.lines[0][0])
    info = lambda: "%s %s rank %d -> %r" % (typ, kind, rank, texts)
    spec, attrs, shown, bounds, null = read(v, texts[0], info)
    v.prove(spec == spec_of(typ, kind, {}), "the type and kind of the variable", info)
    v.prove(attrs == {"pointer"}, "a pointer", info)
    v.prove(shown == "q" * n and bounds == [":"] * rank, "name and rank", info)
    v.prove(null is not None, "a pointer starts as null", info)
    at = texts[0].rindex("q" * n)
    v.prove(v.eq(texts[1], texts[0][:at] + name + texts[0][at + n:]), "the same declaration, for every name", info)
