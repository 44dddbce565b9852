"""What an include brings into a file (C16): the definitions of the included files, in their order, at any depth and for any number of
them.  Recursive calls are known by the contract being proved (induction over the depth of the includes)."""
import z3

from contracts.base import B, I, Unsupported, cx, sym, xform
from engine.sym import Name, SimError, SymInt, SymList, SymSeq, Tok
from engine.xform import Cand, LoopPlan

import prophyc.model as M  # noqa: E402

F = z3.Function
INC, NAME, SEEN = F('is an include', I, B), F('name of node', I, I), F('was included before', I, B)
OFF, COUNT, SYM = F('definitions before', I, I), F('definitions of the include', I, I), F('name of definition', I, I)


class Symbol(object):
    """The q-th definition."""

    def __init__(self, q):
        self.q = z3.simplify(q)

    name = property(lambda self: Name(SYM(self.q)))

    def sym_eq(self, o):
        return self.q == o.q if isinstance(o, Symbol) else o.sym_eq(self) if isinstance(o, Node) else False


class Node(object):
    """The k-th node of a file: an include, or the definition number OFF(k)."""

    def __init__(self, k, once):
        self.k, c = z3.simplify(k), cx()
        n = z3.If(INC(self.k), z3.If(z3.And(once, SEEN(self.k)), z3.IntVal(0), COUNT(self.k)), z3.IntVal(1))
        c.assume(z3.And(OFF(0) == 0, OFF(self.k) >= 0, COUNT(self.k) >= 0, OFF(self.k + 1) == OFF(self.k) + n,
                        z3.Implies(z3.Not(INC(self.k)), NAME(self.k) == SYM(OFF(self.k)))))

    name = property(lambda self: Name(NAME(self.k)))

    def sym_isinstance(self, cs):
        if [getattr(x, '_mirror_of', x) for x in cs] != [M.Include]:
            raise Unsupported('kind of a node')
        return cx().branch(INC(self.k))

    @property
    def members(self):
        if not cx().entails(INC(self.k)):
            raise Unsupported('members of a definition')
        return Tok('members of include', SymInt(self.k), k=self.k)

    def defined_symbols(self):
        if not cx().entails(INC(self.k)):
            raise Unsupported('symbols of a definition')
        return within(self.k)

    def sym_eq(self, o):
        if isinstance(o, Symbol):
            return z3.And(z3.Not(INC(self.k)), OFF(self.k) == o.q)
        return self.k == o.k if isinstance(o, Node) else False


def within(k):
    """What the include number k brings."""
    return SymList([('seg', cx().definitions, OFF(k), OFF(k) + COUNT(k))])


class Names(object):
    """The set of the names of the includes met so far: SEEN says whether a name is in it."""

    def __init__(self):
        self.epoch, self.added = len(cx().loops), []

    def __contains__(self, x):
        lp = [x for x in cx().loops.values() if x.open]
        if not lp or not cx().entails(z3.And(INC(lp[0].k), Name.of(x) == NAME(lp[0].k))):
            raise Unsupported('set of names')
        return cx().branch(SEEN(lp[0].k))

    def add(self, x):
        self.added.append(Name.of(x))

    def __bool__(self):
        raise Unsupported('emptiness of a set of names')

    obj = property(lambda self: self)

    def entry(self, lp):
        pass

    def havoc(self, lp):
        if lp.index == 1:
            self.added = []

    def close(self, lp):
        c = cx()
        if lp.index != 1 or not c.once:
            return
        ok = all(c.entails(z3.And(INC(lp.k), x == NAME(lp.k))) for x in self.added)
        ok = ok and (bool(self.added) or c.entails(z3.Or(z3.Not(INC(lp.k)), SEEN(lp.k))))
        c.record('%s invariant: the set holds the names of the includes so far' % lp.key, 'proved' if ok else 'unknown', '')
        if not ok:
            c.imprecise = True


def flattened(fname, call, what, once):
    def run(c):
        n = c.int('nodes', 0)
        c.make_set, c.once = lambda *a: Names(), once
        nodes = SymSeq(n, lambda k: Node(k, once), 'nodes')
        seq = c.definitions = SymSeq(OFF(n), what, 'definitions')
        c.assume(OFF(0) == 0)

        def cands(lp):
            outer = [x for x in c.loops.values() if x is not lp and x.open]
            if not outer:
                return [Cand('the definitions so far', lambda k: SymList([('seg', seq, z3.IntVal(0), OFF(k))]))]
            k0 = outer[-1].k
            return [Cand('and of this include so far', lambda j: SymList([('seg', seq, z3.IntVal(0), OFF(k0) + j)]))]
        plan.cands = cands
        try:
            r = call(nodes)
        except SimError as e:
            c.record('%s: does not fail' % fname, 'refuted', repr(e))
            return
        if not isinstance(r, SymList):
            raise Unsupported('result %r' % (r,))
        c.outcome = 'done'
        c.assume(OFF(n) >= 0)
        c.prove('%s: as many as are defined' % fname, r.length() == OFF(n))
        q = c.int('any definition', 0)
        c.assume(q < OFF(n))
        sym.same('%s: the definitions in their order' % fname, r.seq().elem(q), seq.elem(q))
    plan = LoopPlan()
    plan.search = True
    plan.heap = lambda lp: [v for v in lp.env.values() if isinstance(v, Names)]
    return xform.verify(fname, run, {'*': plan}, ('done',))


def symbols():
    f = xform.World(None, []).fn(M.Include.defined_symbols)
    return flattened('prophyc.model.Include.defined_symbols', lambda nodes: f(Tok('include', members=nodes)), Symbol, False)


def index():
    """An include met twice may be read again or not: the names mean the same."""
    pair = lambda q: (Name(SYM(q)), Symbol(q))
    res = []
    for once in (True, False):
        f = xform.World(None, [(M._make_types_index, lambda m: within(m.k))]).fn(M._make_types_index)
        res.append(flattened('prophyc.model._make_types_index', f, pair, once))
    done = [r for r in res if all(o[1] == 'proved' for o in r.obs)]
    return (done or res)[0]
