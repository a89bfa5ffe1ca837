"""Loop contracts: invariant cut points.

A loop contract is an object with
   inv(L, G)      -> list of (name, condition)   L: locals, G: ghost state
   havoc(L, G)    -> dict of new values for assigned locals (may also replace
                     heap state reachable from L; returns values of locals)
   item(G)        -> the current element (for loops over a symbolic sequence)
   more(G)        -> condition: another element exists
   advance(G)     -> move the ghost position past the current element
Entry:     inv is proved with the concrete state.
Iteration: state havoced, inv assumed, one arbitrary iteration executed,
           inv proved again; the path then ends.
Exit:      inv and the negated loop condition hold after the loop.
"""
from .core import E, PathEnd, Unsupported, prove, assume, RES


class Undef:
    def __repr__(self):
        return "<undefined local>"


UNDEF = Undef()


class Controller:
    """native behaviour: iterate the original iterable"""

    cut = False

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)

    def check(self):
        return True

    def note(self, loc):
        pass


class CutLoop:
    cut = True

    def __init__(self, spec, name, it):
        self.spec, self.name, self.it = spec, name, it
        self.G = {}
        self.loc = None
        self.first = True

    def enter(self, loc, names):
        sp = self.spec
        self.entry = dict(loc)
        self.G = sp.ghost(self.entry, self.it)
        for nm, c in sp.inv(self.entry, self.G):
            prove(c, "%s: invariant on entry: %s" % (self.name, nm))
        if "__pv_cut_seen" in E.ghost:
            pass
        new = sp.havoc(self.entry, self.G)
        cur = dict(self.entry)
        cur.update(new)
        for nm, c in sp.inv(cur, self.G):
            assume(c)
        missing = [n for n in names if n not in new and n in self.entry
                   and n not in sp.keeps]
        if missing:
            raise Unsupported("loop contract %s does not cover locals %s" % (self.name, missing))
        r = tuple(new[n] if n in new else self.entry.get(n, UNDEF) for n in names)
        return r

    def note(self, loc):
        self.loc = dict(loc)

    def _preserved(self):
        sp = self.spec
        sp.advance(self.G)
        for nm, c in sp.inv(self.loc, self.G):
            prove(c, "%s: invariant preserved: %s" % (self.name, nm))
        v = sp.variant
        raise PathEnd()

    def check(self):
        if self.first:
            self.first = False
            return True
        self._preserved()

    def __iter__(self):
        if bool(self.spec.more(self.G)):
            yield self.spec.item(self.G)
            self._preserved()
        else:
            self.spec.at_exit(self.G)


class LoopSpec:
    keeps = ()
    variant = None

    def ghost(self, L, it):
        return {"it": it}

    def inv(self, L, G):
        return []

    def havoc(self, L, G):
        return {}

    def more(self, G):
        raise NotImplementedError

    def item(self, G):
        raise NotImplementedError

    def advance(self, G):
        pass

    def at_exit(self, G):
        pass


def pv_loop(mod, qual, n, it):
    spec = E.loops.get((mod, qual, n))
    if spec is None or not E.active or not spec.applies(it):
        return Controller(it)
    return CutLoop(spec, "%s.%s loop %d" % (mod, qual, n), it)


LoopSpec.applies = lambda self, it: True
