"""Attributes of the elements of a symbolic sequence, as a mutable store.

A store maps (attribute, index) to an integer.  Three kinds of updates are modelled: a plain write, a comprehension
that writes attributes of its own element only (a map: every element is updated by the same symbolic step), and a loop
whose contract states the store before iteration k."""
import z3

from .sym import SymInt, Unsupported, cx, i_term, summarise

I = z3.IntSort()


class Heap(object):
    """base: attribute -> function from an index term to a term."""

    def __init__(self, c, n, base):
        self.n, self.base, self.writes = n, dict(base), []
        self.stages, self.name = [], 'store'
        c.heaps = getattr(c, 'heaps', []) + [self]

    # --- element access
    def read(self, attr, j):
        for a, i, v in reversed(self.writes):
            if a == attr and (z3.eq(z3.simplify(i), z3.simplify(j)) or cx().branch(i == j)):
                return v
        return SymInt(self.base[attr](j))

    def write(self, attr, j, v):
        if attr not in self.base:
            raise Unsupported('write of attribute %s' % attr)
        self.guard()
        self.writes.append((attr, z3.simplify(j), v))

    def guard(self):
        for lp in cx().loops.values():
            if lp.open and id(self) not in lp.covered:
                raise Unsupported('loop writes a store its invariant does not cover')

    # --- one comprehension: every element is updated by the same step
    def start(self):
        self.saved = list(self.writes)

    def collect(self, i):
        """The writes of one path through the step, which may concern element i only."""
        new = self.writes[len(self.saved):]
        self.writes = list(self.saved)
        out = {}
        for a, j, v in new:
            if not z3.eq(j, z3.simplify(i)) and not cx().entails(i == j):
                raise Unsupported('a comprehension writes another element')
            if v is None or not isinstance(v, (int, SymInt)):
                raise Unsupported('a comprehension stores %r' % type(v).__name__)
            out[a] = i_term(v)
        return out

    def commit(self, n, i, n0, paths):
        """paths: [(guards, facts, writes)] of the step at element i (of n)."""
        if self.saved:
            raise Unsupported('comprehension over a partly written store')
        attrs = sorted({a for _, _, w in paths for a in w})
        if not attrs:
            return
        c = cx()
        old = dict(self.base)
        for no, (name, want, define) in enumerate(self.stages):
            # a stated result of the step: proved on every path, then used instead of the paths
            if not set(attrs) <= set(want):
                continue
            todo = [(g, fs, [(w[a] if a in w else old[a](i)) == want[a](i) for a in want]) for g, fs, w in paths]
            defs = [z3.And(i >= 0, i < n)] + list(define(i))
            sts = [c._check(*(defs + list(g) + list(fs) + [z3.Not(z3.And(*eqs))]))[0] for g, fs, eqs in todo]
            if all(st == z3.unsat for st in sts):
                c.record('%s: %s' % (self.name, name), 'proved')
                self.base.update(want)
                return no
        new = {a: z3.Function(c.fresh(a).replace('!', '@'), I, I) for a in attrs}

        def at(attr):
            def read(j):
                alts = []
                for g, fs, w in paths:
                    cs = list(g) + list(fs) + [new[a](i) == (w[a] if a in w else old[a](i)) for a in attrs]
                    alts.append(z3.And(*cs))
                f = rename(z3.Or(*alts), i, j, n0)
                cx().assume(z3.Implies(z3.And(j >= 0, j < n), f))
                cx().assume(z3.Implies(z3.Not(z3.And(j >= 0, j < n)), new[attr](j) == old[attr](j)))
                return new[attr](j)
            return read
        for a in attrs:
            self.base[a] = at(a)


class StoreInv(object):
    """The store before iteration k of a loop: spec(k) gives the attributes the loop may change, the rest is kept."""

    def __init__(self, store, spec, after=None):
        self.store = self.obj = store
        self.spec, self.after = spec, after

    def entry(self, lp):
        self.check(lp, self.spec(z3.IntVal(0)), 'holds on entry')

    def check(self, lp, want, what):
        c = cx()
        q = z3.Int(c.fresh('q'))
        c.assume(z3.And(q >= 0, q < self.store.n))
        for a in sorted(want):
            c.prove('%s store invariant of %s %s' % (lp.key, a, what), i_term(self.store.read(a, q)) == want[a](q), 'inv')

    def havoc(self, lp):
        if self.store.writes:
            raise Unsupported('loop over a partly written store')
        self.kept = dict(self.store.base)
        self.store.base = dict(self.store.base, **self.spec(lp.k))

    def leave(self, lp):
        if self.after:
            want, keep = self.after()
            self.check(lp, want, 'gives the stated result')
            self.store.base = dict(self.store.base, **want)
            if keep is not None:
                cx().forget(keep)

    def close(self, lp):
        self.check(lp, dict(self.kept, **self.spec(z3.simplify(lp.k + 1))), 'is kept')


def rename(f, i, j, n0):
    """f with i replaced by j and every constant made after counter n0 turned into a function of j."""
    subs = [(i, j)]
    seen, todo = set(), [f]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not z3.eq(x, i):
            nm = x.decl().name()
            if '!' in nm and nm.rsplit('!', 1)[1].isdigit() and int(nm.rsplit('!', 1)[1]) > n0:
                subs.append((x, z3.Function(nm.replace('!', '_') + '_of', I, x.sort())(j)))
        todo += [x.body()] if z3.is_quantifier(x) else x.children()
    return z3.substitute(f, *subs)


def map_step(seq, fn, heaps):
    """[fn(x) for x in seq] where fn may write the store: returns the element values (one constant) or None."""
    c = cx()
    key = ('map', c.kb, tuple(c.dec), c.qi)
    if key in c.cache:
        # re-execution of a step whose stated result was proved on an earlier path
        n, qi, want, out = c.cache[key]
        for h, w in zip(heaps, want):
            h.base.update(h.stages[w][1])
        c.n, c.qi = n, qi
        return out
    i = z3.Int(c.fresh('i'))
    n0 = c.n
    vals = []

    def probe():
        for h in heaps:
            h.writes = list(h.saved)
        cx().assume(z3.And(i >= 0, i < seq.n))
        v = fn(seq.elem(i))
        vals.append((v, [h.collect(i) for h in heaps]))
        return len(vals) - 1
    for h in heaps:
        h.start()
    res = summarise(probe)
    for h in heaps:
        h.writes = list(h.saved)
    if not any(any(w) for _, w in vals):
        return None
    stated = [h.commit(seq.n, i, n0, [(g, fs, vals[v][1][k]) for g, v, fs in res]) for k, h in enumerate(heaps)]
    out = {repr(vals[v][0]) for _, v, _ in res}
    first = vals[res[0][1]][0]
    if len(out) > 1 or not (first is None or isinstance(first, (bool, int, str))):
        raise Unsupported('values of a comprehension with effects: %s' % sorted(out)[:3])
    if all(w is not None for w in stated):
        c.cache[key] = (c.n, c.qi, stated, (first,))
    return (first,)
