"""C03: array transforms move every element to its place and back."""
import itertools

import z3

from pyvc.harness import contract
from contracts.fexpr import Text, Parser, value

HDIMS = ["horizontal_dimension", "ccpp_constant_one:horizontal_dimension",
         "horizontal_loop_extent", "ccpp_constant_one:horizontal_loop_extent",
         "horizontal_loop_begin:horizontal_loop_end"]
VDIMS = ["vertical_layer_dimension", "ccpp_constant_one:vertical_layer_dimension",
         "vertical_interface_dimension"]
LOOP = [False, False, True, True, True]     # runs from one (loop extent)


def call_ref(v, txt, lname):
    """(list of index trees, Text) of the text 'lname(i1, i2, ...)'"""
    t = Text(txt)
    p = Parser(t.text)
    tree = p.all()
    v.prove(tree[0] == "ref" and len(tree[1]) == 1 and tree[1][0][1] is not None,
            "the result is an array reference", t.text)
    v.prove(v.eq(t.back(tree[1][0][0]), lname), "the array addressed is the one given", t.text)
    return t, tree[1][0][1]


def zterm(v, t, tree, env):
    """integer value of an index expression; env: list of (name, z3 Int)"""
    def leaf(lf):
        if lf[0] == "num":
            return z3.IntVal(int(lf[1]))
        nm = t.back(lf[1][0][0])
        for n, z in env:
            same = v.eq(nm, n)
            if same is True or (same is not False and bool(same)):
                return z
        raise KeyError("index expression mentions %r" % (t.text,))
    return value(tree, leaf)


def perms(n):
    return list(itertools.permutations(range(n)))


def expect_forward(idx, perm, h1, vpos, l1, l2, adj, flip, begin, nk):
    """indices of var2 for the element of var1 at idx"""
    out = []
    for p, dim in enumerate(perm):
        e = idx[dim]
        if dim == h1 and adj:
            if l1 and not l2:
                e = e + begin - 1
            elif l2 and not l1:
                e = e - begin + 1
        if dim == vpos and flip:
            e = nk - e + 1
        out.append(e)
    return out


def round_trip(v, tr, n, perm, inv, h1, hd1, hd2, vpos):
    # any distinct names: a distinguishing prefix followed by anything
    suf = [v.str("suffix%d" % i, charset="abcdefghijklmnopqrstuvwxyz_0123456789", pool=["", "_x"])
           for i in range(n)]
    names = ["i%d" % i + suf[i] for i in range(n)]
    hname = "h" + v.str("hsuffix", charset="abcdefghijklmnopqrstuvwxyz_0123456789", pool=["col"])
    vname = "v" + v.str("vsuffix", charset="abcdefghijklmnopqrstuvwxyz_0123456789", pool=["ver"])
    allnames = names + [hname, vname]
    adj = v.choice("adjust", [False, True])
    flip = v.choice("flip", [False, True]) if vpos >= 0 else False
    zi = [z3.Int("i%d" % i) for i in range(n)]
    begin, nk = z3.Int("begin"), z3.Int("nk")
    env = list(zip(allnames, zi + [begin, nk]))
    kw = {}
    if adj:
        kw["adjust_hdim"] = hname
    if flip:
        kw["flip_vdim"] = vname
    arr = v.name("array", pool=["foo"])
    # forward: var1(names) -> var2(...)
    t, trees = call_ref(v, tr.forward_transform(arr, tuple(names), **kw), arr)
    v.prove(len(trees) == n, "one index for each dimension", t.text)
    got = [zterm(v, t, x, env) for x in trees]
    want = expect_forward(zi, perm, h1, vpos, LOOP[hd1], LOOP[hd2], adj, flip, begin, nk)
    v.valid(z3.And(*[a == b for a, b in zip(got, want)]), "forward addresses the same element",
            lambda: "%s expected %s" % (t.text, want))
    # reverse, for the element reached: var2(names) -> var1(...)
    t2, trees2 = call_ref(v, tr.reverse_transform(arr, tuple(names), **kw), arr)
    v.prove(len(trees2) == n, "one index for each dimension", t2.text)
    env2 = list(zip(allnames, got + [begin, nk]))
    back = [zterm(v, t2, x, env2) for x in trees2]
    v.valid(z3.And(*[a == b for a, b in zip(back, zi)]), "copying in and out restores the element",
            lambda: "forward %s, reverse %s" % (t.text, t2.text))
    # and reverse on its own
    got2 = [zterm(v, t2, x, env) for x in trees2]
    want2 = expect_forward(zi, inv, inv[h1], inv[vpos] if vpos >= 0 else -1,
                           LOOP[hd2], LOOP[hd1], adj, flip, begin, nk)
    v.valid(z3.And(*[a == b for a, b in zip(got2, want2)]), "reverse addresses the same element",
            lambda: "%s expected %s" % (t2.text, want2))


RANKS = [1, 2, 3]


@contract(["var_props.DimTransform.__init__", "var_props.DimTransform.forward_transform",
           "var_props.DimTransform.reverse_transform"], conc=6000, cases=(1, 2, 3, 4),
          note="ranks up to 4 for proofs (all permutations and positions), up to 5 for bounded runs")
def dim_transform_elements(v, rank):
    vp = v.repo("var_props")
    n, perm, inv, h1, hd1, hd2, vpos, d1, d2 = setup_rank(v, rank)
    tr = vp.DimTransform(tuple(perm), tuple(inv), HDIMS[hd1], h1, vpos,
                         HDIMS[hd2], inv[h1], inv[vpos] if vpos >= 0 else -1)
    round_trip(v, tr, n, perm, inv, h1, hd1, hd2, vpos)


def setup_rank(v, n, alld=True):
    perm = v.choice("perm", perms(n))
    h1 = v.choice("hpos", list(range(n)))
    hs = list(range(len(HDIMS))) if n < 3 else [0, 2]
    hd1, hd2 = v.choice("hdim1", hs), v.choice("hdim2", hs)
    vpos = v.choice("vpos", [-1] + [x for x in range(n) if x != h1])
    d1 = [HDIMS[hd1] if i == h1 else VDIMS[0] if i == vpos else "dim_%d" % i for i in range(n)]
    d2 = [HDIMS[hd2] if perm[p] == h1 else d1[perm[p]] for p in range(n)]
    inv = [perm.index(i) for i in range(n)]
    return n, perm, inv, h1, hd1, hd2, vpos, d1, d2


@contract(["var_props.VarCompatObj._get_dim_transforms", "var_props.VarCompatObj.__init__",
           "var_props.DimTransform.forward_transform", "var_props.DimTransform.reverse_transform"],
          conc=6000, cases=(1, 2, 3, 4))
def compat_dim_transforms(v, rank):
    """the transform found for two shapes is the right one"""
    from contracts.c02 import env
    vp = v.repo("var_props")
    n, perm, inv, h1, hd1, hd2, vpos, d1, d2 = setup_rank(v, rank)
    vco = vp.VarCompatObj("s", "real", "kind_phys", "m", d1, "l1", False,
                          "s", "real", "kind_phys", "m", d2, "l2", False, env(v))
    v.prove(vco.compat, "reordered shapes are compatible")
    tr = vco._get_dim_transforms(d1, d2)
    v.prove(tr is not None, "a transform is found for reordered shapes", "%s %s" % (d1, d2))
    round_trip(v, tr, n, perm, inv, h1, hd1, hd2, vpos)


@contract(["var_props.VarCompatObj._get_dim_transforms", "var_props.DimTransform.forward_transform",
           "var_props.DimTransform.reverse_transform"], conc=4000)
def repeated_dimensions(v):
    """shapes with a dimension that occurs twice: still one to one"""
    from contracts.c02 import env
    vp = v.repo("var_props")
    n = v.choice("rank", [3, 4])
    others = ["xdim", "xdim", "ydim"][:n - 1]
    src = ["H"] + others
    p1, p2 = v.choice("p1", perms(n)), v.choice("p2", perms(n))
    h1, h2 = v.choice("h1", [0, 2]), v.choice("h2", [0, 2])
    d1 = [HDIMS[h1] if src[i] == "H" else src[i] for i in p1]
    d2 = [HDIMS[h2] if src[i] == "H" else src[i] for i in p2]
    vco = vp.VarCompatObj("s", "real", "kind_phys", "m", d1, "l1", False,
                          "s", "real", "kind_phys", "m", d2, "l2", False, env(v))
    tr = vco._get_dim_transforms(d1, d2)
    v.prove(tr is not None, "a transform is found")
    names = tuple("i%d" % i for i in range(n))
    begin = z3.Int("begin")
    zi = [z3.Int(x) for x in names]
    env1 = list(zip(names, zi)) + [("col", begin)]
    t, trees = call_ref(v, tr.forward_transform("a", names, adjust_hdim="col"), "a")
    got = [zterm(v, t, x, env1) for x in trees]
    # every var1 index is used once, at a position with the same dimension
    norm = lambda d: "H" if d in HDIMS else d          # noqa: E731
    t2, trees2 = call_ref(v, tr.reverse_transform("a", names, adjust_hdim="col"), "a")
    back = [zterm(v, t2, x, list(zip(names, got)) + [("col", begin)]) for x in trees2]
    v.valid(z3.And(*[a == b for a, b in zip(back, zi)]), "copying in and out restores the element",
            lambda: "%s %s: %s, %s" % (d1, d2, t.text, t2.text))
    import re
    used = [re.findall(r"i[0-9]", str(g)) for g in got]
    v.prove(all(len(u) == 1 for u in used) and sorted(u[0] for u in used) == sorted(names),
            "every index is used once", t.text)
    v.prove(all(norm(d1[int(u[0][1:])]) == norm(d2[p]) for p, u in enumerate(used)),
            "indices stay with their dimensions", "%s %s %s" % (d1, d2, t.text))


@contract(["var_props.DimTransform.__init__"], conc=3000)
def illegal_transforms(v):
    vp = v.repo("var_props")
    pe = v.repo("parse_tools").ParseInternalError
    n = v.choice("n", [1, 2, 3])
    a = [v.int("f%d" % i, -2, 4) for i in range(n)]
    h1, h2 = v.int("h1", -2, 4), v.int("h2", -2, 4)
    v1, v2 = v.int("v1", -2, 4), v.int("v2", -2, 4)
    m = v.choice("m", [n, n, n + 1])
    out = v.call(vp.DimTransform, tuple(range(n)), tuple(range(m)), "horizontal_dimension",
                 h1, v1, "horizontal_loop_extent", h2, v2, catch=(pe,))
    legal = v.And(m == n, h1 >= 0, h1 < n, h2 >= 0, h2 < n, v1 < n, v2 < n)
    v.prove(v.Iff(out.ok, legal), "positions outside the shape are an error",
            lambda: "%r" % (out.exc,))


@contract(["var_props.VarCompatObj.forward_transform", "var_props.VarCompatObj.reverse_transform"],
          conc=3000)
def assignment_text(v):
    """both statements assign the right array section from the right array section"""
    from contracts.c02 import env
    vp = v.repo("var_props")
    d = ["horizontal_dimension", "vertical_layer_dimension", "xdim", "ydim"]
    n = v.choice("rank", [0, 1, 2, 3, 4])
    vco = vp.VarCompatObj("s", "real", "kind_phys", "m", d[:n], "l1", False,
                          "s", "real", "kind_phys", "m", d[:n], "l2", v.choice("top", [True, False]),
                          env(v))
    seg = ["i", ":", "1:pver", "pver:1:-1", "nk-k+1", "hind+col_start-1"]
    li = [v.str("l%d" % i, pool=seg, nonempty=True) for i in range(n)]
    ri = [v.str("r%d" % i, pool=seg, nonempty=True) for i in range(n)]
    a, b = v.name("lhs", pool=["foo", "foo_local"]), v.name("rhs", pool=["bar", "x%y"])

    def ref(nm, ix):
        return nm if not ix else v.fmt("{}({})", nm, v.join(",", ix))
    for f in (vco.forward_transform, vco.reverse_transform):
        got = f(lvar_lname=a, rvar_lname=b, rvar_indices=ri, lvar_indices=li)
        v.prove(v.eq(got, v.fmt("{} = {}", ref(a, li), ref(b, ri))),
                "left section assigned from right section", lambda: got)
