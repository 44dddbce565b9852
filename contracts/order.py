"""Contract of prophyc.model.topological_sort (C15): for any number of nodes in any order the result is a permutation of them in
which everything a node depends on comes before it, and the sorting terminates.  Ghost state: the node at each position and the
position of each node."""
import itertools

import z3

from contracts.base import B, I, Unsupported, cx, i_term, sym, xform
from engine.sym import Name, PathEnd, SimError, SymInt, SymList, SymSeq, Tok
from engine.xform import Flat, LoopPlan

import prophyc.model as M  # noqa: E402

F = z3.Function
NAME, ENUM, MEMBERS, MNAME = F('name', I, I), F('is enum', I, B), F('enumerators', I, I), F('enumerator', I, I, I)
DEPS, DEP = F('deps', I, I), F('dep', I, I, I)
AVAIL, DEF, RIDX = F('available', I, B), F('definer', I, I), F('enumerator index', I, I)
RANK = F('rank', I, I)
LITERALS = [t + w for t in 'uir' for w in ('8', '16', '32', '64')]


def builtin(x):
    return z3.Or(*[x == Name.of(s) for s in LITERALS])


def world():
    return xform.World(None, [(itertools.islice, islice)])


def islice(xs, *a):
    if not isinstance(xs, NList):
        if xform.is_sym(xs):
            raise Unsupported('islice')
        return itertools.islice(xs, *a)
    if len(a) == 1:
        a = (0,) + a
    if len(a) != 2 or a[1] is not None:
        raise Unsupported('islice')
    return xs.tail(a[0])


class Node(object):
    docstring = None

    def __init__(self, i):
        self.i = z3.simplify(i)
        cx().assume(z3.And(MEMBERS(self.i) >= 0, DEPS(self.i) >= 0))

    def sym_isinstance(self, cs):
        cs = [getattr(k, '_mirror_of', k) for k in cs]
        if M.Enum not in cs:
            raise Unsupported('kind of a node')
        return cx().branch(ENUM(self.i))

    @property
    def name(self):
        return Name(NAME(self.i))

    @property
    def members(self):
        return SymSeq(MEMBERS(self.i), lambda r: Tok('member', SymInt(r), **{'name': Name(MNAME(self.i, r))}), 'members')

    def dependencies(self):
        return SymSeq(DEPS(self.i), lambda j: Name(DEP(self.i, j)), 'dependencies')

    def sym_eq(self, o):
        return self.i == o.i if isinstance(o, Node) else False


def segments(xs):
    if isinstance(xs, (list, tuple)):
        return [('item', y) for y in xs]
    if isinstance(xs, (SymSeq, xform.Comp)):
        s = xform.seq_of(xs)
        return [('seg', s, z3.IntVal(0), s.n)]
    if not isinstance(xs, SymList):
        raise Unsupported('names %r' % type(xs).__name__)
    return xs.segs


def member_at(xs, x, r):
    """x is in the list xs of names, at the place r of a part of it."""
    return z3.Or(False, *[Name.of(s[1]) == x if s[0] == 'item' else z3.And(r >= s[2], r < s[3], Name.of(s[1].elem(r)) == x) for s in segments(xs)])


def member_of(xs, x):
    """x is in the list xs of names."""
    return xform.name_in(SymList(segments(xs)), x)


class PSet(object):
    """A set of names as a predicate."""

    def __init__(self, st, has):
        self.st, self.has, self.added = st, has, []
        self.epoch = len(cx().loops)

    def __contains__(self, x):
        return cx().branch(self.has(Name.of(x)))

    def sym_contains(self, x):
        return self.has(Name.of(x))

    def add(self, x):
        sym.guard_write(self)
        t, old = Name.of(x), self.has
        self.added.append(t)
        self.has = lambda y: z3.Or(old(y), y == t)

    def update(self, xs):
        sym.guard_write(self)
        old = self.has
        self.has = lambda y: z3.Or(old(y), member_of(xs, y))

    __ior__ = None


class NList(object):
    """The nodes: at(position) is a node number, pos(node number) its position."""

    def __init__(self, st, n):
        self.st, self.n = st, n
        self.at, self.pos = F('at', I, I), F('pos', I, I)
        self.len = n
        self.epoch, self.starts = 0, []

    def sym_len(self):
        return SymInt(self.len)

    def sym_seq(self):
        at = self.at
        return SymSeq(self.len, lambda p: Node(at(p)), 'nodes')

    def tail(self, start):
        s, at = i_term(start), self.at
        self.starts.append(s)
        if not cx().entails(s >= 0):
            raise Unsupported('negative start')
        return SymSeq(z3.If(self.len > s, self.len - s, z3.IntVal(0)), lambda p: Node(at(z3.simplify(p + s))), 'later nodes')

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.stop is not None or i.step is not None:
                raise Unsupported('slice of the nodes')
            return self.tail(i.start or 0)
        t = i_term(i)
        if not cx().entails(t >= 0):
            raise Unsupported('negative index')
        if not cx().branch(t < self.len):
            raise SimError('IndexError')
        return Node(self.at(t))

    def pop(self, i=None):
        if i is None:
            raise Unsupported('pop')
        node = self[i]
        sym.guard_write(self)
        t, at, pos = i_term(i), self.at, self.pos
        self.at = lambda p: z3.If(p < t, at(p), at(p + 1))
        self.pos = lambda x: z3.If(x == node.i, z3.IntVal(-1), z3.If(pos(x) > t, pos(x) - 1, pos(x)))
        self.len = z3.simplify(self.len - 1)
        return node

    def __delitem__(self, i):
        self.pop(i)

    def insert(self, i, node):
        if not isinstance(node, Node):
            raise Unsupported('insert')
        sym.guard_write(self)
        t, at, pos = i_term(i), self.at, self.pos
        if not cx().entails(z3.And(t >= 0, t <= self.len)):
            raise Unsupported('insert beyond the list')
        self.at = lambda p: z3.If(p < t, at(p), z3.If(p == t, node.i, at(p - 1)))
        self.pos = lambda x: z3.If(x == node.i, t, z3.If(pos(x) >= t, pos(x) + 1, pos(x)))
        self.len = z3.simplify(self.len + 1)


class State(object):
    def __init__(self, c, acyclic=False):
        self.acyclic = acyclic
        self.n = c.int('nodes', 0)
        self.nodes = NList(self, self.n)
        self.sets = []
        i, r, x, p = z3.Ints('i? r? x? p?')
        ok = z3.And(i >= 0, i < self.n)
        # every name is defined by one node (definer); enumerators along with their enum; names are no built-in types
        c.assume(z3.ForAll([i], z3.Implies(ok, z3.And(AVAIL(NAME(i)), DEF(NAME(i)) == i)), patterns=[NAME(i)]))
        c.assume(z3.ForAll([i, r], z3.Implies(z3.And(ok, ENUM(i), r >= 0, r < MEMBERS(i)), z3.And(AVAIL(MNAME(i, r)), DEF(MNAME(i, r)) == i)), patterns=[MNAME(i, r)]))
        d = DEF(x)
        c.assume(z3.ForAll([x], z3.Implies(AVAIL(x), z3.And(d >= 0, d < self.n, x >= 0, z3.Or(x == NAME(d), z3.And(
            ENUM(d), RIDX(x) >= 0, RIDX(x) < MEMBERS(d), MNAME(d, RIDX(x)) == x)))), patterns=[AVAIL(x)]))
        c.assume(self.permutation(self.nodes.at, self.nodes.pos))
        if acyclic:
            j = z3.Int('j?')
            c.assume(z3.ForAll([i, j], z3.Implies(z3.And(ok, j >= 0, j < DEPS(i), AVAIL(DEP(i, j))), RANK(DEF(DEP(i, j))) < RANK(i)), patterns=[DEP(i, j)]))

    def permutation(self, at, pos):
        i, p = z3.Ints('i? p?')
        n = self.n
        return z3.And(z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < n), z3.And(at(p) >= 0, at(p) < n, pos(at(p)) == p)), patterns=[at(p)]),
                      z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(pos(i) >= 0, pos(i) < n, at(pos(i)) == i)), patterns=[pos(i)]))

    def make_set(self, *a):
        if not a:
            s = PSet(self, lambda x: z3.BoolVal(False))
        elif isinstance(a[0], Flat):
            s = PSet(self, self.flat(a[0]))
        else:
            xs = a[0] if isinstance(a[0], SymList) else list(a[0])
            s = PSet(self, lambda x: member_of(xs, x))
        self.sets.append(s)
        return s

    def flat(self, f):
        """The predicate of {y | y in f(node), node of nodes}: the available names, if that is what it is."""
        c = cx()
        q, x, r = c.int('a position', 0), c.int('a name'), c.int('a place', 0)
        res = sym.summarise(lambda: c_list(f.fn(f.seq.elem(q))))

        def body(q1, r1, facts=True):
            e = [z3.And(*(list(g) + (list(fs) if facts else []) + [member_at(v, x, r)])) for g, v, fs in res]
            return z3.substitute(z3.And(q < f.seq.n, z3.Or(*e)), (q, q1), (r, r1))
        d = self.nodes.pos(DEF(x))
        there = z3.Or(*[body(d, z3.IntVal(0), False), body(d, RIDX(x), False), body(d, RIDX(x) + 1, False)])
        if not (c.entails(z3.Implies(body(q, r), AVAIL(x))) and c.entails(z3.Implies(AVAIL(x), there))):
            raise Unsupported('set of names that are not the available ones')
        c.record('prophyc.model.topological_sort: the names defined by the nodes are known', 'proved')
        return AVAIL

    # --- goals
    def prove_permutation(self, what):
        c, ns = cx(), self.nodes
        c.prove('%s: no node is lost or added' % what, ns.len == self.n)
        p, i = c.int('position', 0), c.int('node', 0)
        c.assume(z3.And(p < self.n, i < self.n))
        c.prove('%s: a permutation of the nodes' % what, z3.And(ns.at(p) >= 0, ns.at(p) < self.n, ns.pos(ns.at(p)) == p, ns.pos(i) >= 0,
                                                                ns.pos(i) < self.n, ns.at(ns.pos(i)) == i))

    def ordered(self, k, p, j):
        at, pos = self.nodes.at, self.nodes.pos
        d = DEP(at(p), j)
        return z3.Implies(z3.And(p >= 0, p < k, j >= 0, j < DEPS(at(p)), AVAIL(d)), pos(DEF(d)) < p)

    def prove_ordered(self, what, k):
        c = cx()
        p, j = c.int('position', 0), c.int('dependency', 0)
        c.prove('%s: what a node depends on comes before it' % what, self.ordered(k, p, j))

    def known(self, k, x):
        return z3.Or(builtin(x), z3.And(AVAIL(x), self.nodes.pos(DEF(x)) < k))


def c_list(v):
    if isinstance(v, xform.Comp) and v.cond is None and isinstance(v.whole, SymList):
        return SymList([('item', v.fn(x[1])) if x[0] == 'item' else ('seg', mapped(x[1], v.fn), x[2], x[3]) for x in v.whole.segs])
    return v if xform.is_sym(v) or isinstance(v, (SymList, SymSeq, xform.Comp)) else list(v)


def mapped(seq, fn):
    return SymSeq(seq.n, lambda i: fn(seq.elem(i)), 'names')


class Sorted(object):
    """Outer loop, before position k: permutation, ordered up to k, and one set holds what is defined before k."""
    own_functions = True  # its fresh functions differ from iteration to iteration: nothing is learnt from a single one

    def __init__(self, st):
        self.st, self.obj = st, st.nodes
        self.mine = []

    def entry(self, lp):
        c = cx()
        x = c.int('a name')
        self.mine = [s for s in self.st.sets if s.has is not AVAIL and c.entails(s.has(x) == builtin(x))]
        for s in self.mine:
            lp.covered.add(id(s))
        c.record('%s invariant of the known names holds on entry' % lp.key, 'proved' if self.mine else 'unknown', 'no set of the built-in types')

    def havoc(self, lp):
        c, st = cx(), self.st
        st.nodes.at, st.nodes.pos, st.nodes.len = F(c.fresh('at').replace('!', '@'), I, I), F(c.fresh('pos').replace('!', '@'), I, I), st.n
        c.assume(st.permutation(st.nodes.at, st.nodes.pos))
        p, j, x = z3.Ints('p? j? x?')
        c.assume(z3.ForAll([p, j], st.ordered(lp.k, p, j), patterns=[DEP(st.nodes.at(p), j)]))
        for s in self.mine:
            k = F(c.fresh('known').replace('!', '@'), I, B)
            c.assume(z3.ForAll([x], k(x) == st.known(lp.k, x), patterns=[k(x)]))
            s.has = k

    def close(self, lp):
        c, st = cx(), self.st
        if not lp.plan.known:
            return c.record('%s invariant' % lp.key, 'unknown', 'nothing is known of the loop over the dependencies')
        k1 = z3.simplify(lp.k + 1)
        st.prove_permutation('%s invariant' % lp.key)
        st.prove_ordered('%s invariant' % lp.key, k1)
        x = c.int('a name')
        for s in self.mine:
            c.prove('%s invariant: the known names are those defined so far' % lp.key, s.has(x) == st.known(k1, x), 'inv')

    def leave(self, lp):
        pass


class Same(object):
    """Iterations that go on leave the nodes and the sets as they are."""

    def __init__(self, st):
        self.st, self.obj = st, st.nodes

    def now(self):
        ns = self.st.nodes
        return [ns.at, ns.pos, ns.len] + [s.has for s in self.st.sets]

    def entry(self, lp):
        lp.covered.update(id(s) for s in self.st.sets)

    def havoc(self, lp):
        self.was = self.now()

    def close(self, lp):
        now = self.now()
        if len(now) != len(self.was) or not all(a is b for a, b in zip(now, self.was)):
            raise Unsupported('a loop over the dependencies that goes on after moving nodes')
        cx().record('%s invariant: iterations that go on change nothing' % lp.key, 'proved')

    def leave(self, lp):
        # what is known of all positions, said of the position of each node
        i, pos = z3.Int('i?'), self.st.nodes.pos
        for s in self.st.nodes.starts if lp.gone and hasattr(pos, 'arity') else ():
            cx().assume(z3.ForAll([i], lp.gone(pos(i) - s), patterns=[pos(i)]))


class Rotating(object):
    """Inner loop: positions before the current one stay, the others are permuted; no name becomes known."""
    own_functions = True

    def __init__(self, st, outer):
        self.st, self.obj, self.outer = st, st.nodes, outer

    def entry(self, lp):
        c = cx()
        x = c.int('a name')
        for s in self.st.sets:
            if s.has is not AVAIL:
                lp.covered.add(id(s))
                if self.st.acyclic and s not in self.outer.mine:
                    c.prove('%s invariant holds on entry: what was moved ahead depends on the node in turn' % lp.key, self.after(s, x), 'inv')

    def after(self, s, x):
        return z3.Implies(s.has(x), z3.And(AVAIL(x), RANK(DEF(x)) >= RANK(self.st.nodes.at(self.outer_k()))))

    def havoc(self, lp):
        c, st = cx(), self.st
        ns = st.nodes
        self.at0, self.pos0 = ns.at, ns.pos
        ns.at, ns.pos, ns.len = F(c.fresh('at').replace('!', '@'), I, I), F(c.fresh('pos').replace('!', '@'), I, I), st.n
        c.assume(st.permutation(ns.at, ns.pos))
        self.at1, self.pos1 = ns.at, ns.pos
        p, x = z3.Ints('p? x?')
        c.assume(z3.ForAll([p], self.kept(p), patterns=[self.at1(p)]))
        c.assume(z3.ForAll([x], self.stays(x), patterns=[self.pos1(x)]))
        c.assume(z3.ForAll([x], self.stays(x), patterns=[self.pos0(x)]))
        self.sets = []
        for s in st.sets:
            if s.has is AVAIL or s in self.outer.mine:
                self.sets.append((s, s.has, True))
                continue
            old, new = s.has, F(c.fresh('rotated').replace('!', '@'), I, B)
            c.assume(z3.ForAll([x], z3.Implies(old(x), new(x)), patterns=[new(x)]))
            s.has, s.added = new, []
            if st.acyclic:
                c.assume(z3.ForAll([x], self.after(s, x), patterns=[new(x)]))
            self.sets.append((s, new, False))

    def kept(self, p):
        return z3.Implies(z3.And(p >= 0, p < self.outer_k()), self.st.nodes.at(p) == self.at0(p))

    def stays(self, x):
        """Nodes before the current position keep theirs, the others stay behind."""
        k, a, b = self.outer_k(), self.pos0(x), self.st.nodes.pos(x)
        ok = z3.And(x >= 0, x < self.st.n)
        return z3.Implies(ok, z3.If(a < k, b == a, b >= k))

    def outer_k(self):
        return self.outer.lp.k

    def close(self, lp):
        c, st = cx(), self.st
        st.prove_permutation('%s invariant' % lp.key)
        p, x = c.int('position', 0), c.int('a node')
        c.prove('%s invariant: nodes already placed stay' % lp.key, z3.And(self.kept(p), self.stays(x)), 'inv')
        y = c.int('a name')
        for s, has, same in self.sets:
            if same:
                c.prove('%s invariant: no name becomes known' % lp.key, s.has(y) == has(y), 'inv')
            elif st.acyclic:
                c.prove('%s invariant: what was moved ahead depends on the node in turn' % lp.key, self.after(s, y), 'inv')

    def progress(self, lp):
        c = cx()
        ok = [(s, t) for s, has, same in self.sets if not same for t in s.added if c.entails(z3.And(z3.Not(has(t)), AVAIL(t)))]
        c.record(lp.key.split('#')[0] + ' terminates: each rotation is by an available name not used before', 'proved' if ok else 'unknown', '')


def sort():
    return [sorting('prophyc.model.topological_sort', False, ('sorted', 'recursive')),
            sorting('prophyc.model.topological_sort (acyclic)', True, ('sorted',))]


def sorting(fname, acyclic, outcomes):

    def run(c):
        st = State(c, acyclic)
        c.make_set, c.branch_ms = st.make_set, 150
        cell = []

        def heap(lp):
            if not cell and lp.seq is not None and len(c.loops) == 1:
                h = Sorted(st)
                h.lp = lp
                cell.append(h)
                return [h]
            if lp.seq is None and len(cell) == 1:
                h = Rotating(st, cell[0])
                cell.append(h)
                return [h]
            return [Same(st)]
        plan.heap = heap
        plan.rank = lambda lp: cell[1].progress(lp)
        f = world().fn(M.topological_sort)
        try:
            f(st.nodes)
        except M.ModelError:
            c.outcome = 'recursive'
            if acyclic:
                c.prove('%s: never rejected' % fname, False)
            return
        except SimError as e:
            c.record('%s: raises only ModelError' % fname, 'refuted', repr(e))
            return
        except (Unsupported, PathEnd):
            raise
        except Exception as e:
            raise Unsupported('raises %r' % e)
        c.outcome = 'sorted'
        if not cell:
            raise Unsupported('another sort')
        st.prove_permutation(fname)
        st.prove_ordered(fname, st.n)
    plan = LoopPlan(whiles=True)
    plan.search = True
    return xform.verify(fname, run, {'*': plan, 'topological_sort': plan}, outcomes)


# ---------------------------------------------------------------- what a definition depends on
NSYM, SYM = F('symbols', I, I), F('symbol', I, I, I)
MDEPS, MDEP = F('deps of member', I, I), F('dep of member', I, I, I)


def symbols(t):
    """Stand-in for _find_symbols: the identifiers of a text."""
    if not isinstance(t, Name):
        raise Unsupported('symbols of %r' % type(t).__name__)
    cx().assume(NSYM(t.t) >= 0)
    return SymSeq(NSYM(t.t), lambda j: Name(SYM(t.t, j)), 'symbols')


class Family(object):
    """The names fn(q, r) with 0 <= q < n, 0 <= r < m(q) (of one index only if m is None), as far as ok(name)."""

    def __init__(self, n, fn, m=None, ok=lambda x: z3.BoolVal(True)):
        self.n, self.fn, self.m, self.ok = n, fn, m, ok

    def at(self, n, q, r):
        return z3.And(q >= 0, q < n, *([r >= 0, r < self.m(q)] if self.m else []))

    def name(self, q, r):
        return self.fn(q, r) if self.m else self.fn(q)

    def has(self, n, q, r, x):
        return z3.And(self.at(n, q, r), self.name(q, r) == x, self.ok(x))


class Bag(object):
    """A list of names as the predicate of what is in it; wits: functions that tell where a name is from."""

    def __init__(self, *xs):
        self.has = lambda x: z3.BoolVal(False)
        self.wits = []
        self.epoch = len(cx().loops)
        for x in xs:
            self.append(x)

    def append(self, x):
        sym.guard_write(self)
        t, old = Name.of(x), self.has
        self.has = lambda y: z3.Or(old(y), y == t)

    def extend(self, xs):
        raise Unsupported('extend')


class Collected(object):
    """Before iteration k: what was there on entry and what the iterations so far stand for."""
    own_functions = True

    def __init__(self, bag, family):
        self.obj = self.bag = bag
        self.fam = family

    def entry(self, lp):
        self.h0 = self.bag.has
        self.before = list(self.bag.wits)

    def havoc(self, lp):
        c, fam = cx(), self.fam
        fresh = lambda what, s: F(c.fresh(what).replace('!', '@'), I, s)  # noqa: E731
        has, w, v = fresh('in', B), fresh('first', I), fresh('second', I)
        x, q, r = z3.Ints('x? q? r?')
        c.assume(z3.ForAll([x], z3.Implies(has(x), z3.Or(self.h0(x), fam.has(lp.k, w(x), v(x), x))), patterns=[has(x)]))
        c.assume(z3.ForAll([x], z3.Implies(self.h0(x), has(x)), patterns=[has(x)]))
        nm = fam.name(q, r)
        c.assume(z3.ForAll([q, r] if fam.m else [q], z3.Implies(z3.And(fam.at(lp.k, q, r), fam.ok(nm)), has(nm)), patterns=[nm]))
        self.bag.has = has
        self.bag.wits = self.before + [(w, v)]
        self.w = w, v

    def close(self, lp):
        c, fam = cx(), self.fam
        x, q, r = c.int('a name'), c.int('first', 0), c.int('second', 0)
        k1 = z3.simplify(lp.k + 1)
        nm = fam.name(q, r)
        c.prove('%s invariant: nothing is left out' % lp.key, z3.Implies(z3.Or(self.h0(x), z3.And(fam.at(k1, q, r), fam.ok(nm), nm == x)), self.bag.has(x)), 'inv')
        found = [fam.has(k1, self.w[0](x), self.w[1](x), x), fam.has(k1, lp.k, z3.IntVal(0), x)]
        found += [fam.has(k1, lp.k, w(x), x) for w, _ in self.bag.wits]
        c.prove('%s invariant: nothing is made up' % lp.key, z3.Implies(self.bag.has(x), z3.Or(self.h0(x), *found)), 'inv')


def depends(fname, K, make, families):
    """K.dependencies() gives exactly the names of families(c, self)."""
    def run(c):
        bags = []

        def new(*xs):
            bags.append(Bag(*xs))
            return bags[-1]
        c.make_list, c.branch_ms = new, 500
        c.make_set = lambda *a: PSet(None, lambda x: member_of(a[0] if a else [], x))
        w = xform.World(None, [(M._find_symbols, symbols)])
        w.declare(M._Container, M.Enum)
        me, fams, loops = make(c, w)
        left = list(loops)

        def heap(lp):
            if not left or len(bags) != 1 or lp.seq is None:
                raise Unsupported('loops of %s' % fname)
            return [Collected(bags[0], left.pop(0))]
        plan.heap = heap
        f = w.fn(K.__dict__['dependencies']) if not isinstance(me, tuple(w.classes.values())) else type(me).dependencies
        r = f(me)
        if isinstance(r, (SymSeq, SymList, xform.Comp, list)):
            xs = r

            class All(object):
                wits = []
                has = staticmethod(lambda x: member_of(xs, x))
            r = All
        elif len(bags) != 1 or r is not bags[0]:
            raise Unsupported('result of %s' % fname)
        x, q, s = c.int('a name'), c.int('first', 0), c.int('second', 0)
        for fam in fams:
            c.prove('%s: every name used is a dependency' % fname, z3.Implies(fam.has(fam.n, q, s, x), r.has(x)))
        found = [fam.has(fam.n, a(x), b(x), x) for fam in fams for a, b in r.wits] + [fam.has(fam.n, z3.IntVal(0), z3.IntVal(0), x) for fam in fams]
        found += [z3.Exists([z3.Int('w?')], fam.has(fam.n, z3.Int('w?'), None, x)) for fam in fams if not fam.m]
        c.prove('%s: only names used are dependencies' % fname, z3.Implies(r.has(x), z3.Or(*found)))
        c.outcome = 'done'
    plan = LoopPlan()
    return xform.verify(fname, run, {'*': plan}, ('done',))


def texts(t):
    return Family(NSYM(t), lambda j: SYM(t, j))


def single(t):
    return Family(z3.IntVal(1), lambda j: t)


def dependencies():
    def obj(**kw):
        return Tok('definition', **kw)

    def of(**names):
        return {k: Name(cx().int(k, 0)) for k, v in names.items()}

    def constant(c, w):
        a = of(value=1, name=1)
        return obj(_value=a['value'], **a), [texts(a['value'].t)], [texts(a['value'].t)]

    def typedef(c, w):
        a = of(type_name=1, name=1)
        return obj(_value=a['type_name'], value=a['type_name'], definition=None, **a), [single(a['type_name'].t)], []

    def struct_member(size):
        def make(c, w):
            a = of(type_name=1, name=1)
            s = Name(c.int('size', 0)) if size else None
            me = obj(_value=a['type_name'], value=a['type_name'], definition=None, bound=None, greedy=False, optional=False, size=s, **a)
            fams = [texts(s.t)] if size else []
            return me, [single(a['type_name'].t)] + fams, fams
        return make

    def union_member(c, w):
        a = of(type_name=1, name=1, discriminator=1)
        d = texts(a['discriminator'].t)
        return obj(_value=a['type_name'], value=a['type_name'], definition=None, **a), [single(a['type_name'].t), d], [d]

    def member(r):
        r = z3.simplify(r)

        def deps():
            cx().assume(MDEPS(r) >= 0)
            return SymSeq(MDEPS(r), lambda j: Name(MDEP(r, j)), 'dependencies')
        m = Tok('member', SymInt(r), name=Name(MNAME(0, r)))
        m.dependencies = deps
        return m

    def container(c, w):
        n = c.int('members', 0)
        whole = Family(n, MDEP, lambda q: MDEPS(q))
        loops = [whole]

        class Inner(Family):
            """Of the member in turn."""

            def __init__(self):
                pass
            m, ok = None, staticmethod(lambda x: z3.BoolVal(True))
            n = property(lambda self: MDEPS(cx().loops[1].k))
            fn = property(lambda self: lambda j: MDEP(cx().loops[1].k, j))
        loops.append(Inner())
        me = obj(members=SymSeq(n, member, 'members'), name=Name(c.int('own name', 0)))
        return me, [whole], loops

    def enum(c, w):
        n, d = c.int('members', 0), c.int('dependencies', 0)
        r = z3.Int('r?')

        def ok(x):
            return z3.Not(z3.Exists([r], z3.And(r >= 0, r < n, MNAME(0, r) == x)))
        fam = Family(d, lambda j: MDEP(0, j), None, ok)
        K = w.classes[M.Enum]
        me = object.__new__(K)
        type(me).members = property(lambda self: SymSeq(n, member, 'members'))
        w.classes[M._Container].dependencies = lambda self: SymSeq(d, lambda j: Name(MDEP(0, j)), 'dependencies')
        return me, [fam], [fam]
    return [depends('prophyc.model.%s.dependencies%s' % (K.__name__, more), K, make, None) for K, more, make in (
        (M.Constant, '', constant), (M.Typedef, '', typedef), (M.StructMember, '', struct_member(False)), (M.StructMember, ' (with size)', struct_member(True)),
        (M.UnionMember, '', union_member), (M._Container, '', container), (M.Enum, '', enum))]
