"""C17: dimensions are matched by name, completely and only where legal."""
from itertools import permutations, product

from pyvc.harness import contract

ONE = "ccpp_constant_one:"
EXT, DIM, LOOP = ONE + "horizontal_loop_extent", ONE + "horizontal_dimension", \
    "horizontal_loop_begin:horizontal_loop_end"
HS = (EXT, DIM, LOOP)
LAY, INTF = "vertical_layer", "vertical_interface"
PHASES = ["run", "initialize", "timestep_final"]


def errors(v):
    pe = v.repo("parse_tools")
    return (pe.CCPPError, pe.ParseSyntaxError, pe.ParseInternalError)


def env(v):
    return v.repo("metavar")._MVAR_DUMMY_RUN_ENV


def scalar(v, std, ptype="host"):
    pe = v.repo("parse_tools")
    return v.repo("metavar").Var(
        {"local_name": "l_" + std, "standard_name": std, "units": "count", "dimensions": "()",
         "type": "integer"},
        pe.ParseSource("src", ptype, pe.ParseContext(linenum=1, filename="f.meta")), env(v))


def suite_object(v, phase, present):
    pe = v.repo("parse_tools")
    return v.repo("suite_objects").SuiteObject(
        "obj", pe.ParseContext(linenum=3, filename="s.xml"), None, env(v),
        variables=[scalar(v, s) for s in present], active_call_list=True, phase_type=phase)


# ------------------------------------------------------------------ specification
def horiz_spec(need, have, phase, present):
    """the dimension both become, or None (need and have are horizontal dimensions)"""
    if need == have:
        return need
    if phase == "run":
        if need == EXT and all(x in present for x in LOOP.split(":")):
            return LOOP
        return None
    return have if have == DIM and need in (EXT, LOOP) else None


def dim_spec(v, need, have):
    """other dimensions: the same, or one is the other with a lower bound of one"""
    return v.Or(v.eq(need, have), v.eq(need, v.join("", [ONE, have])),
                v.eq(have, v.join("", [ONE, need])))


# a list is described by its classes: H, V (vertical), or a name
def patterns(n):
    for p in product("HVabc"[:2 + n], repeat=n):
        names = [x for x in p if x in "abc"]
        if p.count("H") < 2 and p.count("V") < 2 and names == sorted(names) \
                and names == list("abc"[:len(names)]):
            yield "".join(p)


PAT = {n: list(patterns(n)) for n in range(4)}


def entry(v, tag, cls, pool):
    if cls == "H":
        return v.choice("h" + tag, HS)
    if cls == "V":
        return v.choice("v" + tag, [ONE + LAY + "_dimension", ONE + INTF + "_dimension",
                                    LAY + "_dimension", LAY + "_index"])
    # a prefix keeps the name apart from the horizontal and vertical ones
    return v.choice("f" + tag, [ONE, "", "lo_b:"]) + "d_" + v.name("n" + tag, pool=pool, lower=True)


def vert_index(have_v):
    for b in (LAY, INTF):
        if have_v in (b + "_dimension", ONE + b + "_dimension"):
            return b + "_index"
    return None


def check_match(v, need, have, np, hp, phase, present):
    obj = suite_object(v, phase, present)
    given = (list(need), list(have))
    out = v.call(obj.match_dimensions, need, have, catch=errors(v))

    def show():
        return "%s: %r against %r with %r -> %r" % (phase, given[0], given[1], present, out)
    v.prove(all(v.eq(a, b) for a, b in zip(need, given[0])) and len(need) == len(np)
            and len(have) == len(hp), "the lists given are not changed", show)
    # what has to be provided: H by H, V by V, the rest one to one
    miss_h = "H" in np and "H" not in hp
    extra_h = "H" in hp and "H" not in np
    hm = None
    if "H" in np and not miss_h:
        hm = horiz_spec(need[np.index("H")], have[hp.index("H")], phase, present)
    ni = [i for i, c in enumerate(np) if c != "H"]
    subst = "V" in hp and "V" not in np
    hi = [i for i, c in enumerate(hp) if c != "H" and not (subst and c == "V")]
    hok = not extra_h and not miss_h and ("H" not in np or hm is not None)
    one = False
    if hok and len(ni) == len(hi):
        one = v.Or(*[v.And(*[dim_spec(v, need[i], have[j]) for i, j in zip(ni, p)])
                     for p in permutations(hi)])
    if not out.ok:
        v.prove(v.And(one, subst and vert_index(have[hp.index("V")]) is None),
                "an error only for a vertical dimension without a loop index", show)
        return
    match, nneed, nhave, missing, perm, reason = out.value
    if subst:
        vix = vert_index(have[hp.index("V")])
        if vix is None:
            v.prove(v.Not(one), "a vertical dimension without a loop index is an error", show)
            present_v = False
        else:
            present_v = vix in present
    else:
        vix, present_v = None, True
    v.prove(v.Iff(match is True, v.And(one, present_v)),
            "matched iff the dimensions correspond one to one", show)
    v.prove(v.Iff(missing is not None, v.And(one, not present_v, vix is not None)),
            "a missing vertical dimension is reported iff all others correspond", show)
    if missing is not None:
        v.prove(missing == vix, "the missing vertical index is named", show)
    v.prove(v.Iff(match is True, reason == ""), "a reason is given iff there is no match", show)
    if miss_h:
        v.prove("missing a horizontal dimension" in reason, "a missing horizontal dimension is reported",
                show)
    if match is not True and missing is None:
        return
    # the correspondence reported
    n = len(have)
    v.prove(len(nneed) == n and len(nhave) == n, "every dimension of the variable is provided for", show)
    order = list(range(n)) if perm is None else list(perm)
    v.prove(sorted(order) == list(range(n)), "the reordering is a permutation", show)
    v.prove(perm is None or order != list(range(n)), "no reordering is reported when the order is the same",
            show)
    for i, j in enumerate(order):
        if hp[j] == "H":
            v.prove(nneed[i] == hm and nhave[j] == hm,
                    "the horizontal dimensions become the matching one", show)
        elif subst and hp[j] == "V":
            v.prove(nneed[i] == vix and nhave[j] == have[j],
                    "the vertical dimension is accessed by its index", show)
        else:
            v.prove(v.And(dim_spec(v, nneed[i], have[j]), v.eq(nneed[i], nhave[j])),
                    "a reordered dimension is provided by one of the same name", show)
    # the needed dimensions keep their order
    rest = [d for d, j in zip(nneed, order) if not (subst and hp[j] == "V")]
    v.prove(len(rest) == len(np), "each needed dimension once", show)
    for d, w, c in zip(rest, given[0], np):
        v.prove(d == hm if c == "H" else dim_spec(v, d, w), "the needed dimensions keep their order", show)


PRESENT = [(), tuple(LOOP.split(":")), (LAY + "_index",),
           tuple(LOOP.split(":")) + (LAY + "_index", INTF + "_index"), ("horizontal_loop_begin",)]


@contract(["suite_objects.SuiteObject.match_dimensions", "suite_objects.SuiteObject.dim_match",
           "suite_objects.SuiteObject.horiz_dim_match", "metavar.VarDictionary.loop_var_match",
           "var_props.find_horizontal_dimension", "var_props.find_vertical_dimension",
           "metavar.VarLoopSubst.has_subst"],
          cases=[(p, b) for a in range(3) for p in PAT[a] for b in range(3)], conc=600, budget=15,
          note="dimension lists of up to two entries; every name of the other dimensions")
def lists_of_dimensions(v, case):
    np, hp = case[0], v.choice("have", PAT[case[1]])
    phase = v.choice("phase", PHASES[:2]) if "H" in np else "run"
    present = v.choice("present", PRESENT) if "H" in np or "V" in hp else ()
    pool = ["x", "y"]
    need = [entry(v, "n%d" % i, c, pool) for i, c in enumerate(np)]
    have = [entry(v, "h%d" % i, c, pool) for i, c in enumerate(hp)]
    check_match(v, need, have, np, hp, phase, present)


@contract(["suite_objects.SuiteObject.match_dimensions"],
          cases=[(3, 2), (2, 3), (3, 3)], conc=3000, budget=15,
          note="dimension lists of three entries; every name of the other dimensions")
def longer_lists(v, ranks):
    np, hp = v.choice("need", PAT[ranks[0]]), v.choice("have", PAT[ranks[1]])
    present = v.choice("present", PRESENT[3:4] + PRESENT[:1]) if "V" in hp and "V" not in np \
        else PRESENT[3]

    def dim(tag, c):
        if c == "H":
            return EXT if tag[0] == "n" else DIM
        if c == "V":
            return ONE + LAY + "_dimension"
        return ONE + "d_" + v.name("n" + tag, pool=["x", "y", "z"], lower=True)
    need = [dim("n%d" % i, c) for i, c in enumerate(np)]
    have = [dim("h%d" % i, c) for i, c in enumerate(hp)]
    check_match(v, need, have, np, hp, "run", present)


@contract(["suite_objects.SuiteObject.match_dimensions"], sym=False, conc=6000, budget=25,
          note="bounded: lists of up to five entries over a small vocabulary")
def many_dimensions(v):
    pool = ["x", "y", "z"]
    n = v.choice("n", [1, 2, 3, 4, 5])
    np = "".join("H" if c == "H" else "V" if c == "V" else "abcde"[i] for i, c in enumerate(
        v.choice("np", [p for p in product("HVab", repeat=n) if p.count("H") < 2 and p.count("V") < 2])))
    need = [entry(v, "n%d" % i, c, pool) for i, c in enumerate(np)]
    # a list derived from the needed one: reorder, rename, add, drop
    pairs = list(zip(need, np))
    for i in range(len(pairs) - 1, 0, -1):
        j = v.choice("swap%d" % i, list(range(i + 1)))
        pairs[i], pairs[j] = pairs[j], pairs[i]
    have, hp = [d for d, _ in pairs], "".join(c for _, c in pairs)
    for i, c in enumerate(hp):
        if c == "H":
            have[i] = v.choice("hh", [have[i], DIM, DIM, LOOP])
        elif c != "V" and v.choice("ren%d" % i, [0, 0, 0, 1]):
            have[i] = entry(v, "r%d" % i, "a", pool)
    how = v.choice("how", ["same", "same", "add", "drop", "addv"])
    if how == "add":
        have.append(entry(v, "x", "a", pool))
        hp += "z"
    elif how == "drop":
        have.pop()
        hp = hp[:-1]
    elif how == "addv" and "V" not in hp:
        k = v.choice("at", list(range(len(have) + 1)))
        have.insert(k, ONE + LAY + "_dimension")
        hp = hp[:k] + "V" + hp[k:]
    check_match(v, need, have, np, hp, v.choice("phase", PHASES), v.choice("present", PRESENT))


@contract(["suite_objects.SuiteObject.horiz_dim_match"], conc=3000,
          note="exhaustive over the horizontal dimensions, with any other name")
def horizontal_only(v):
    """horiz_dim_match answers only for horizontal dimensions"""
    mv = v.repo("metavar")

    def d(t):
        k = v.choice("k" + t, list(HS) + ["other"])
        return "d_" + v.name("o" + t, pool=["x", "y"], lower=True) if k == "other" else k
    need, have = d("n"), d("h")
    phase, present = v.choice("phase", PHASES), v.choice("present", PRESENT)
    obj = suite_object(v, phase, present)
    got = obj.horiz_dim_match(need, have, mv.VarDictionary.loop_var_match(need))
    want = None
    if need in HS and have in HS:
        want = horiz_spec(need, have, phase, present)
    v.prove(got == want, "horizontal dimensions match only as documented for the phase",
            lambda: "%s: %r against %r with %r -> %r, expected %r" % (phase, need, have, present, got, want))


@contract(["suite_objects.SuiteObject.dim_match"], conc=2000)
def other_dimensions(v):
    """two dimensions match iff they are the same, or one has the default lower bound of one"""
    so = v.repo("suite_objects")

    def d(t):
        lo = v.choice("lo" + t, ["", "one", "name", "three"])
        n = v.name("n" + t, pool=["x", "y", "ccpp_constant_one"], lower=True)
        if lo == "three":
            return ONE + n + ":" + v.name("s" + t, pool=["x", "y"], lower=True)
        return n if not lo else ONE + n if lo == "one" else \
            v.name("l" + t, pool=["x", "y", "ccpp_constant_one"], lower=True) + ":" + n
    need, have = d("n"), d("h")
    got = so.SuiteObject.dim_match(need, have)
    v.prove(v.Iff(got is not None and got is not False, dim_spec(v, need, have)),
            "matched iff the same, or the same with a default lower bound of one",
            lambda: "%r against %r -> %r" % (need, have, got))
    if got:
        v.prove(v.And(dim_spec(v, got, need), dim_spec(v, got, have)), "the match is the dimension itself")


@contract(["var_props.find_horizontal_dimension", "var_props.find_vertical_dimension",
           "var_props.is_horizontal_dimension", "var_props.is_vertical_dimension"],
          cases=[0, 1, 2], conc=2000)
def first_of_its_kind(v, n):
    """the first horizontal and the first vertical dimension of a list, with its place"""
    vp = v.repo("var_props")
    H = HS + ("horizontal_dimension", "horizontal_loop_extent")
    V = tuple(p + b + "_dimension" for p in (ONE, "") for b in (LAY, INTF)) + \
        (LAY + "_index", INTF + "_index")
    dims = [v.str("d%d" % i, charset="abcdefghijklmnopqrstuvwxyz_:", pool=list(H[:3] + V[:2]) + ["x", ONE + "x"])
            for i in range(n)]
    for f, names in ((vp.find_horizontal_dimension, H), (vp.find_vertical_dimension, V)):
        name, k = f(dims)
        want = -1
        for i in range(n - 1, -1, -1):
            if v.isin(dims[i], names):
                want = i
        v.prove(k == want, "the place of the first such dimension", lambda: "%r -> %r" % (dims, k))
        v.prove(name is None if want < 0 else v.eq(name, dims[want]), "the dimension itself")
