"""C18: active conditions are translated without changing their meaning."""
from pyvc.harness import contract

WORDS = ["==", "/=", "<=", ">=", "<", ">", ".eqv.", ".neqv.", ".lt.", ".le.", ".eq.", ".ge.",
         ".gt.", ".ne.", ".and.", ".or.", ".xor."]
OPS = WORDS + [".not.", "(", ")", " ", ".true.", ".false."]
IDC = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"


class Conditioned:
    """assumed contract of Var as far as the translation reads it: its condition"""

    def __init__(self, text):
        self.text = text

    def get_prop_value(self, name):
        return {"active": self.text, "local_name": "me", "standard_name": "my_name"}[name]


class Carrier:
    """assumed contract of a host variable: a local name"""

    def __init__(self, std, loc):
        self.std, self.loc = std, loc

    def get_prop_value(self, name):
        return {"local_name": self.loc, "standard_name": self.std}[name]


class Scope:
    """assumed contract of a dictionary (C09): look-up by standard name"""

    def __init__(self, v, entries):
        self.v, self.entries = v, entries

    def find_variable(self, standard_name=None, source_var=None, any_scope=True, clone=None,
                      search_call_list=False, loop_subst=False):
        for x in self.entries:
            if self.v.eq(x.std, standard_name):
                return x
        return None


def translate(v, text, scopes):
    return v.call(v.repo("metavar").Var.conditional, Conditioned(text), scopes)


def lookup(v, scopes, name):
    for s in scopes:
        for x in s.entries:
            if v.eq(x.std, name):
                return x
    return None


def verdict(v, out, want, needed, show):
    """want: the translated text, or None where only an error will do"""
    if want is None:
        v.prove(not out.ok, "an unknown name or text that is not understood is an error", show)
        return
    v.prove(out.ok, "a condition that is understood is translated", show)
    text, got = out.value
    v.prove(v.eq(text, want), "names are replaced by local names, all else is as written", show)
    v.prove(all(any(g is x for x in needed) for g in got), "only variables mentioned are needed", show)
    v.prove(all(any(g is x for g in got) for x in needed), "every variable mentioned is needed", show)


def scopes_of(v):
    """two scopes; the first one is searched first"""
    a = Carrier("s_" + v.name("std_a", pool=["flag", "num"], lower=True),
                "l_" + v.name("loc_a", pool=["x", "y"]))
    b = Carrier("s_" + v.name("std_b", pool=["flag", "other"], lower=True),
                "m_" + v.name("loc_b", pool=["p(1)", "q"]))
    return [Scope(v, [a]), Scope(v, [b])]


@contract(["metavar.Var.conditional"], conc=1000, budget=10,
          cases=[(None,)] + [(w,) for w in WORDS] + [("==", ".and."), ("<", ".or."), (".not.", "/=")],
          note="conditions of up to three terms: every name, every integer, every operator")
def terms(v, ops):
    """names, integers and logical literals joined by operators"""
    scopes = scopes_of(v)
    text, want, needed, bad = "", "", [], False
    ops = () if ops == (None,) else ops
    for i in range(len(ops) + 1):
        if i:
            sp = v.choice("sp%d" % i, ["", " "]) if len(ops) == 1 else " "
            text, want = v.join("", [text, sp, ops[i - 1], sp]), v.join("", [want, sp, ops[i - 1], sp])
        pre = v.choice("pre%d" % i, ["", ".not.", "("]) if not ops or (i and len(ops) == 1) else ""
        text, want = v.join("", [text, pre]), v.join("", [want, pre])
        kind = v.choice("term%d" % i, ["name", "int", ".true.", ".false."] if i == len(ops)
                        else ["name", "int"] if len(ops) == 1 else ["name"])
        if kind == "name":
            name = "s_" + v.name("n%d" % i, pool=["flag", "num", "other", "none"], lower=True)
            x = lookup(v, scopes, name)
            text = v.join("", [text, name])
            if x is None:
                bad = True
            else:
                want = v.join("", [want, x.loc])
                needed.append(x)
        elif kind == "int":
            d = v.str("d%d" % i, charset="0123456789", nonempty=True, pool=["0", "1", "42", "007"])
            text, want = v.join("", [text, d]), v.join("", [want, d])
        else:
            text, want = v.join("", [text, kind]), v.join("", [want, kind])
        post = ")" if pre == "(" else ""
        text, want = v.join("", [text, post]), v.join("", [want, post])
    out = translate(v, text, scopes)
    verdict(v, out, None if bad else want, needed, lambda: "%r -> %r, expected %r" % (text, out, want))


@contract(["metavar.Var.conditional"], conc=3000)
def words_as_written(v):
    """every operator and literal, next to every other, with a name on either side"""
    scopes = scopes_of(v)
    x = scopes[0].entries[0]
    w1, w2 = v.choice("w1", OPS), v.choice("w2", OPS)
    text = v.join("", [x.std, w1, w2, x.std])
    if w1 in ("<", ">") and w2[0] == "=":
        return              # reads as another operator
    out = translate(v, text, scopes)
    verdict(v, out, v.join("", [x.loc, w1, w2, x.loc]), [x], lambda: "%r -> %r" % (text, out))


@contract(["metavar.Var.conditional"], conc=3000)
def characters_not_understood(v):
    """a single character outside the documented ones anywhere in a condition"""
    scopes = scopes_of(v)
    x = scopes[0].entries[0]
    c = v.choice("c", list("-+*%,;:=\"#$&!?@[]{}|~^`\\/.\t"))
    where = v.choice("where", ["before", "after", "between", "name", "operator", "word"])
    text = {"before": v.join("", [c, x.std, " == 1"]), "after": v.join("", [x.std, " == 1", c]),
            "between": v.join("", [x.std, " == ", c, "1"]), "name": v.join("", [x.std, c, "1"]),
            "operator": v.join("", [x.std, c, " == 1"]),
            "word": v.join("", [".not. ", c, x.std])}[where]
    out = translate(v, text, scopes)
    v.prove(not out.ok, "text that is not understood is an error", lambda: "%r -> %r" % (text, out))


ALPH = "ax1 ()=<>/.-+'"


def tokens(text, names):
    """documented language of conditions: list of tokens, or None"""
    out, i = [], 0
    while i < len(text):
        for w in sorted(OPS, key=len, reverse=True):
            if text[i:i + len(w)].lower() == w:
                out.append(text[i:i + len(w)])
                i += len(w)
                break
        else:
            j = i
            while j < len(text) and text[j] in IDC:
                j += 1
            if j == i:
                return None
            word = text[i:j]
            if not word.isdigit() and word.lower() not in names:
                return None
            out.append(word)
            i = j
    return out


@contract(["metavar.Var.conditional"], sym=False, conc=20000, budget=30,
          note="bounded: texts of up to 12 pieces, well-formed or not")
def any_text(v):
    names = {"a": "loc", "ax": "dat%flag(1)", "and": "andy", "x1": "y", "true": "t", "or": "o",
             "eq": "e", "not": "n"}
    scope = Scope(v, [Carrier(a, b) for a, b in names.items()])
    piece = ["a", "ax", "A", "x1", "1", "12", " ", "(", ")", "==", "/=", "<=", ">", ".and.", ".or.",
             ".not.", ".eq.", ".true.", ".AND.", ".True.", "-", "+", "=", "/", ".", "'", "b", "%", "*",
             ",", "and", "or", "eq", "1.5", "1_a", "\"", "xor", "-le-", "#"]
    text = "".join(v.choice("p%d" % i, piece if v.choice("odd%d" % i, [0, 0, 0, 1]) else piece[:18])
                   for i in range(v.choice("n", list(range(1, 13)))))
    tok = tokens(text, names)
    out = translate(v, text, [Scope(v, []), scope])

    def show():
        return "%r -> %r" % (text, out)
    if tok is None:
        v.prove(not out.ok, "an unknown name or text that is not understood is an error", show)
        return
    upper = any(t != t.lower() for t in tok)
    if upper and not out.ok:
        return           # operators in capitals need not be understood
    v.prove(out.ok, "a condition that is understood is translated", show)
    want = "".join(names.get(t.lower(), t) for t in tok)
    v.prove(out.value[0].replace(" ", "").lower() == want.replace(" ", "").lower() and
            (upper or out.value[0] == want), "names are replaced by local names, all else is as written",
            lambda: "%r -> %r, expected %r" % (text, out, want))
    need = {t.lower() for t in tok if t.lower() in names}
    v.prove({x.std for x in out.value[1]} == need, "the variables needed are those mentioned", show)
