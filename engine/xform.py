"""Mechanical extraction: takes the source of the function objects the interpreter really runs, rewrites loops and
comprehensions into cut points, substitutes builtins by their symbolic versions, and compiles the result.

What the extraction drops: decorators of the extracted function itself (staticmethod/classmethod/property are
re-applied), laziness of generators (a generator function is run to completion, its yields collected in order),
`__slots__`, and the identity of replaced builtins.  Nothing else is rewritten.
"""
import ast
import builtins
import inspect
import textwrap
import types

import z3

from . import heap, sym
from .sym import (Comp, Poison, SimError, SymBool, SymBytes, SymDict, SymInt, SymList, SymQuot, SymSeq, Tok, Unsupported,
                  aggregate, as_seq, b_term, const_of, cx, i_term, is_same, same)


# ------------------------------------------------------------------ replaced builtins

def v_len(x):
    if isinstance(x, SymBytes):
        return SymInt(x.length())
    if isinstance(x, (SymSeq, SymList)):
        return SymInt(x.length())
    if isinstance(x, Comp):
        if x.cond is not None:
            n = aggregate('sum', x.n, lambda i: SymInt(i_term(SymBool(b_term(x.cond(x.src.elem(i)))))))
            some = aggregate('any', x.n, lambda i: SymBool(b_term(x.cond(x.src.elem(i)))))
            cx().assume(b_term(some) == (i_term(n) > 0))
            return n
        return SymInt(x.n)
    if hasattr(x, 'sym_len'):
        return x.sym_len()
    if hasattr(type(x), '_mirror') and hasattr(type(x), '__len__'):
        return type(x).__len__(x)
    return len(x)


def _flat(c):
    r = []
    for k in c if isinstance(c, tuple) else (c,):
        r += _flat(k) if isinstance(k, tuple) else [k]
    return r


def v_isinstance(x, c):
    cs = _flat(c)
    if hasattr(x, 'sym_isinstance'):
        return x.sym_isinstance(cs)
    if isinstance(x, SymInt):
        return int in cs or object in cs
    if isinstance(x, SymBool):
        return int in cs or bool in cs
    if isinstance(x, SymBytes):
        return bytes in cs
    if isinstance(x, (SymList, SymSeq)):
        return list in cs
    if isinstance(x, SymDict):
        return dict in cs
    cs = [getattr(k, '_mirror_of', k) for k in cs]
    ms = [k for k in cs if isinstance(k, type)]
    if hasattr(type(x), '_mirror'):
        return any(issubclass(type(x)._mirror_of, k) for k in ms)
    return isinstance(x, tuple(ms))


def v_issubclass(t, c):
    cs = [getattr(k, '_mirror_of', k) for k in _flat(c)]
    if hasattr(t, 'sym_issubclass'):
        return t.sym_issubclass(cs)
    return issubclass(getattr(t, '_mirror_of', t), tuple(cs))


def v_max(*a, **k):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, Comp) and x.cond is None:
            if cx().branch(x.n <= 0):
                if 'default' in k:
                    return k['default']
                raise SimError('ValueError', 'max of empty')
            r = aggregate('max', x.n, x.body)
            return r
        if isinstance(x, (SymSeq, SymList)) and not (isinstance(x, SymList) and x.concrete()):
            s = as_seq(x)
            if cx().branch(s.n <= 0):
                raise SimError('ValueError', 'max of empty')
            return aggregate('max', s.n, s.elem)
        a = list(x)
    if k:
        return max(*a, **k)
    if any(isinstance(v, (SymInt, SymBool)) for v in a):
        t = i_term(a[0])
        for v in a[1:]:
            t = z3.If(i_term(v) > t, i_term(v), t)
        return SymInt(t)
    return max(a)


def v_min(*a, **k):
    if len(a) == 1:
        a = list(a[0])
    if k:
        return min(*a, **k)
    if any(isinstance(v, (SymInt, SymBool)) for v in a):
        t = i_term(a[0])
        for v in a[1:]:
            t = z3.If(i_term(v) < t, i_term(v), t)
        return SymInt(t)
    return min(a)


def v_sum(x, start=0):
    if isinstance(x, Comp) and x.cond is None:
        return start + aggregate('sum', x.n, x.body)
    if isinstance(x, SymSeq):
        return start + aggregate('sum', x.n, x.elem)
    if isinstance(x, SymList) and not x.concrete():
        t = start
        for s in x.segs:
            if s[0] == 'item':
                t = t + s[1]
            elif hasattr(s[1], 'psum'):
                t = t + s[1].psum(s[3]) - s[1].psum(s[2])
            else:
                lo, fam = s[2], s[1]
                t = t + aggregate('sum', z3.simplify(s[3] - lo), lambda i: fam.elem(z3.simplify(lo + i)))
        return t
    t = start
    for v in x:
        t = t + v
    return t


def _quant(kind):
    def f(x):
        if isinstance(x, Comp):
            c = x.cond
            if c is None:
                return aggregate(kind, x.n, lambda i: as_bool(x.body(i)))
            if kind == 'any':
                return aggregate(kind, x.n, lambda i: as_bool(
                    (lambda e: x.fn(e) if sym.truth(c(e)) else False)(x.src.elem(i))))
            return aggregate(kind, x.n, lambda i: as_bool(
                (lambda e: x.fn(e) if sym.truth(c(e)) else True)(x.src.elem(i))))
        if isinstance(x, SymSeq) or is_sym(x):
            x = as_seq(x)
            return aggregate(kind, x.n, lambda i: as_bool(x.elem(i)))
        for v in x:
            if bool(v) == (kind == 'any'):
                return kind == 'any'
        return kind != 'any'
    return f


def as_bool(v):
    if isinstance(v, (SymBool, bool)):
        return v
    if isinstance(v, (SymInt, int)):
        return SymBool(b_term(v))
    return bool(v)


v_any = _quant('any')
v_all = _quant('all')


def v_range(*a):
    if not any(isinstance(v, (SymInt, SymBool)) for v in a):
        return range(*a)
    if len(a) == 1:
        lo, hi = z3.IntVal(0), i_term(a[0])
    elif len(a) == 2:
        lo, hi = i_term(a[0]), i_term(a[1])
    else:
        raise Unsupported('range with a step')
    n = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
    return SymSeq(n, lambda i: SymInt(z3.simplify(i + lo)), 'range')


def v_zip(*a):
    if not any(is_sym(x) for x in a):
        return zip(*a)
    ss = [seq_of(x) for x in a]
    n = ss[0].n
    for s in ss[1:]:
        n = z3.If(s.n < n, s.n, n)
    return SymSeq(z3.simplify(n), lambda i: tuple(s.elem(i) for s in ss), 'zip')


def v_enumerate(x, start=0):
    if not is_sym(x):
        return enumerate(x, start)
    s = as_seq(x)
    return SymSeq(s.n, lambda i: (SymInt(z3.simplify(i + i_term(start))), s.elem(i)), 'enumerate')


def v_reversed(x):
    if not is_sym(x):
        return reversed(x)
    s = as_seq(x)
    return SymSeq(s.n, lambda i: s.elem(z3.simplify(s.n - 1 - i)), 'reversed')


def v_list(*a):
    if a and is_sym(a[0]):
        if isinstance(a[0], Comp) and a[0].cond is not None:
            return a[0]
        s = as_seq(a[0])
        return SymList([('seg', s, z3.IntVal(0), s.n)])
    if a and hasattr(a[0], 'sym_list'):
        return a[0].sym_list()
    return list(*a)


def v_tuple(*a):
    return v_list(*a) if a and is_sym(a[0]) else tuple(*a)


def v_set(*a):
    if getattr(cx(), 'make_set', None):
        return cx().make_set(*a)
    if a and isinstance(a[0], Flat):
        raise Unsupported('set over a symbolic sequence')
    if a and isinstance(a[0], Comp) and is_sym(a[0]):
        return SymSet(a[0])
    if a:
        xs = list(a[0])
        if getattr(cx(), 'grow_sets', False):
            return GrowSet(xs)
        if any(isinstance(x, SymInt) for x in xs):
            if len(xs) == 1:
                return SymSet(None, xs)
            raise Unsupported('set of symbolic values')
        return set(xs)
    return GrowSet() if getattr(cx(), 'grow_sets', False) else set()


class GrowSet(object):
    """A set that only grows: single items, and families {t(q) | q < k} added by the iterations of a loop."""

    def __init__(self, xs=()):
        self.items, self.fams, self.new, self.unknown = list(xs), [], [], False
        self.epoch = len(cx().loops)

    def add(self, x):
        if sym.Name.of(x) is None:
            raise Unsupported('set of %r' % type(x).__name__)
        sym.guard_write(self)
        self.new.append(x)

    def sym_contains(self, x):
        t = sym.Name.of(x)
        if t is None:
            raise Unsupported('membership of %r' % type(x).__name__)
        if self.unknown:
            return z3.Bool(cx().fresh('known'))
        q = z3.Int('m?')
        return z3.Or(*([sym.Name.of(y) == t for y in self.items + self.new] + [
            z3.Exists([q], z3.And(q >= 0, q < k, z3.substitute(f, (i, q)) == t)) for f, i, k in self.fams]))

    def __contains__(self, x):
        return cx().branch(self.sym_contains(x))

    def update(self, xs):
        for x in list(xs):
            self.add(x)


class SymSet(object):
    """set(f(x) for x in seq): only its size-one test and pop are modelled."""

    def __init__(self, comp, xs=None):
        if comp is not None:
            if comp.cond is not None:
                raise Unsupported('filtered set')
            self.n, self.body = comp.n, comp.body
        else:
            self.n, self.body = z3.IntVal(len(xs)), lambda i: xs[0]
        self.equal = None

    def sym_len(self):
        if cx().branch(self.n <= 0):
            return 0
        if self.equal is None:
            b = self.body
            first = b(z3.IntVal(0))
            self.equal = aggregate('all', self.n, lambda i: SymBool(b_term(b(i) == first)))
        if cx().branch(self.equal.t):
            return 1
        return SymInt(cx().int('setlen', 2))

    def pop(self):
        if const_of(self.sym_len()) != 1:
            raise Unsupported('pop of a set with several elements')
        return self.body(z3.IntVal(0))


def v_int(*a):
    if a and hasattr(a[0], 'sym_int'):
        return a[0].sym_int(*a[1:])
    if a and isinstance(a[0], SymInt):
        return a[0]
    if a and isinstance(a[0], SymBool):
        return SymInt(i_term(a[0]))
    if a and isinstance(a[0], SymQuot):
        # exact for 0 <= n < 2**50 and a power-of-two divisor (stated assumption): truncation is floor
        q = a[0]
        cx().notes.append('int(a / b) treated as floor division')
        if not cx().entails(q.n >= 0):
            raise Unsupported('truncating division of a negative')
        return SymInt(sym.div_term(q.n, q.d))
    return int(*a)


def v_bool(*a):
    if a and isinstance(a[0], (SymInt, SymBool)):
        return SymBool(b_term(a[0]))
    return bool(*a)


def v_divmod(a, b):
    if isinstance(a, (SymInt, SymBool)) or isinstance(b, (SymInt, SymBool)):
        a = SymInt(i_term(a))
        return a // b, a % b
    return divmod(a, b)


def v_abs(a):
    return abs(a)


_none = object()


def v_getattr(o, name, *d):
    if hasattr(type(o), 'sym_getattr'):
        return o.sym_getattr(name, *d)
    if not isinstance(name, str):
        raise Unsupported('getattr with an opaque name')
    return getattr(o, name, *d)


def v_setattr(o, name, v):
    if hasattr(type(o), 'sym_setattr'):
        return o.sym_setattr(name, v)
    if not isinstance(name, str):
        raise Unsupported('setattr with an opaque name')
    return setattr(o, name, v)


def v_hasattr(o, name):
    if hasattr(type(o), 'sym_hasattr'):
        return o.sym_hasattr(name)
    return hasattr(o, name)


def v_next(x, *d):
    if isinstance(x, Comp) and is_sym(x):
        return find_first(x, *d)
    if isinstance(x, (SymList, list, SymSeq)):
        raise Unsupported('next() of a non-iterator')
    if isinstance(x, Comp):
        x = iter(x)
    return next(x, *d)


def find_first(x, *d):
    """next(e for e in seq if cond(e)): the first index satisfying cond, or the default."""
    c = cx()
    cond = x.cond or (lambda e: True)
    j = z3.Int(c.fresh('first'))

    def holds(i):
        return b_term(sym.merge(sym.summarise(lambda: as_bool(cond(x.src.elem(i))))))
    q = z3.Int(c.fresh('q'))
    if c.choose('found'):
        c.assume(z3.And(j >= 0, j < x.n))
        c.assume(holds(j))
        c.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < j), z3.Not(holds(q)))))
        return x.fn(x.src.elem(j))
    c.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < x.n), z3.Not(holds(q)))))
    if d:
        return d[0]
    raise SimError('StopIteration')


def v_type(*a):
    if len(a) == 1:
        x = a[0]
        if hasattr(x, 'sym_type'):
            return x.sym_type()
        if isinstance(x, (SymInt, SymBool, SymBytes, SymList, SymDict)):
            return x._kind
        return type(x)
    return type(*a)


def v_str(*a):
    if a and hasattr(a[0], 'sym_str'):
        return a[0].sym_str()
    return str(*a)


def v_iter(x):
    if is_sym(x):
        raise Unsupported('iter() over a symbolic sequence')
    return iter(x)


def v_sorted(x, **k):
    if is_sym(x):
        raise Unsupported('sorted() of a symbolic sequence')
    return sorted(x, **k)


def v_filter(f, x):
    if is_sym(x):
        return Comp('gen', as_seq(x), lambda e: e, f or (lambda e: e))
    return filter(f, x)


def v_map(f, *xs):
    if any(is_sym(x) for x in xs):
        if len(xs) != 1:
            raise Unsupported('map')
        return Comp('gen', as_seq(xs[0]), f, None)
    return map(f, *xs)


BUILTINS = {'len': v_len, 'isinstance': v_isinstance, 'issubclass': v_issubclass, 'max': v_max, 'min': v_min,
            'sum': v_sum, 'any': v_any, 'all': v_all, 'range': v_range, 'xrange': v_range, 'zip': v_zip,
            'enumerate': v_enumerate, 'reversed': v_reversed, 'list': v_list, 'set': v_set, 'tuple': v_tuple, 'int': v_int,
            'bool': v_bool, 'divmod': v_divmod, 'getattr': v_getattr, 'setattr': v_setattr, 'next': v_next,
            'type': v_type, 'iter': v_iter, 'sorted': v_sorted, 'map': v_map, 'filter': v_filter, 'hasattr': v_hasattr, 'str': v_str}
# classes that must stay usable as classes in isinstance(x, int) etc.: the replacement is applied only in call position
CALL_ONLY = {'int', 'bool', 'filter', 'tuple', 'list', 'set', 'type', 'str', 'range', 'zip', 'map', 'enumerate', 'reversed', 'xrange'}


def is_sym(x):
    if isinstance(x, SymSeq):
        return not z3.is_int_value(z3.simplify(x.n))
    if isinstance(x, Comp):
        return True
    if isinstance(x, SymList):
        return not x.concrete()
    if hasattr(x, 'sym_seq'):
        return True
    return False


def seq_of(x):
    if hasattr(x, 'sym_seq'):
        return x.sym_seq()
    if isinstance(x, Comp) and x.cond is not None:
        raise Unsupported('loop over a filtered symbolic comprehension')
    return as_seq(x)


# ------------------------------------------------------------------ loops

class Cand(object):
    """An invariant candidate for one local: its value before iteration k."""

    def __init__(self, name, at, nxt=None, exit=None):
        self.name, self.at, self.nxt = name, at, nxt or (lambda k: at(z3.simplify(k + 1)))
        self.exit = exit


class LoopPlan(object):
    """Per function: candidates for each loop and the choices ruled out so far."""

    def __init__(self, cands=None, heap=None, whiles=False, inv=None):
        self.cands = cands or (lambda lp: [])
        self.heap = heap or (lambda lp: [])
        self.whiles = whiles
        self.inv = inv
        self.measure = self.rank = None
        self.search = False         # find the condition under which iterations go on, and use it after the loop
        self.seen, self.known = {}, {}
        self.added, self.adds = {}, {}      # what the iterations add to a set
        self.weak = [('stays at or above its initial value', lambda v0, v: v >= v0)]
        self.ruled_out = set()


PLANS = {}


class Loop(object):
    def __init__(self, key, seq, env, names, owner):
        c = cx()
        self.key, self.env, self.names, self.owner = key, env, names, owner
        self.seq = seq
        self.n = seq.n if seq is not None else None
        self.plan = PLANS.get(key.split('#')[0]) or PLANS.get('*') or LoopPlan()
        self.index = len(c.loops) + 1
        self.open, self.gone = True, None
        self.covered = set()
        self.chosen = {}
        c.loops[self.index] = self
        self.k = z3.Int(c.fresh('k'))
        self.extra = {}
        self.sets, self.grown = [], []

    def havoc(self):
        c = cx()
        out = []
        cands = self.plan.cands(self)
        for nm in self.names:
            if nm not in self.env:
                out.append(Poison('local %s read before assignment in a later iteration' % nm))
                continue
            v = self.env[nm]
            pick = None
            for cd in cands:
                if (self.key, nm, cd.name) in self.plan.ruled_out:
                    continue
                at0 = cd.at(z3.IntVal(0))
                if compatible(v, at0) and is_same(v, at0):
                    pick = cd
                    break
            if pick is None and self.plan.search and (self.key, nm, 'its value on entry') not in self.plan.ruled_out and \
                    (v is None or isinstance(v, (bool, int, str, SymInt, SymBool, Tok))):
                pick = Cand('its value on entry', lambda k, v=v: v)
            self.chosen[nm] = pick
            out.append(None)
        self.heaps = self.plan.heap(self)
        for h in self.heaps:
            h.entry(self)
            self.covered.add(id(h.obj))
        if self.plan.inv:
            c.prove('%s invariant holds on entry' % self.key, self.plan.inv(self, z3.IntVal(0)), 'inv')
        self.weakly = []
        if any(p is None for p in self.chosen.values()) or self.plan.ruled_out:
            c.imprecise = True
        # arbitrary iteration
        self.mark = (len(c.pc), c.n, (self.key, tuple(c.dec)))
        c.assume(self.k >= 0)
        if self.n is not None:
            c.assume(self.k <= z3.If(self.n > 0, self.n, z3.IntVal(0)))
        for i, nm in enumerate(self.names):
            if nm not in self.env:
                continue
            v, pick = self.env[nm], self.chosen[nm]
            if isinstance(v, GrowSet) and self.plan.search:
                self.covered.add(id(v))
                v.items, v.new = v.items + v.new, []
                f = self.plan.adds.get((self.mark[2], nm))
                if f is None:
                    v.unknown = c.imprecise = True
                else:
                    v.fams.append((f[0], f[1], self.k))
                    self.grown.append((nm, v, f))
                self.sets.append((nm, v))
                out[i] = v
            elif id(v) in self.covered:
                out[i] = v
            elif pick is not None:
                nv = pick.at(self.k)
                if isinstance(v, (SymList, SymDict)):
                    # same object, new contents (aliases keep seeing it)
                    v.segs = nv.segs
                    self.covered.add(id(v))
                    nv = v
                out[i] = nv
            elif isinstance(v, (SymDict,)) or isinstance(v, SymList):
                out[i] = Poison()
            elif isinstance(v, bool) or isinstance(v, SymBool):
                out[i] = SymBool(z3.Bool(c.fresh(nm)))
            elif isinstance(v, (int, SymInt)):
                x = z3.Int(c.fresh(nm))
                out[i] = SymInt(x)
                for wn, f in self.plan.weak:
                    if (self.key, nm, wn) not in self.plan.ruled_out:
                        c.assume(f(i_term(v), x))
                        self.weakly.append((nm, wn, f, i_term(v)))
            elif v is None or isinstance(v, str):
                out[i] = Poison()
            else:
                out[i] = Poison()
        for h in self.heaps:
            h.havoc(self)
        if self.plan.inv:
            c.assume(self.plan.inv(self, self.k))
        self.start = out
        return out

    def mutated(self, env):
        """Mutable locals the loop body may touch without assigning them (lists built by append)."""
        return [(n, v) for n, v in env.items() if isinstance(v, (SymList,)) and n not in self.names]

    def more(self):
        if self.n is None:
            return True
        r = cx().branch(self.k < self.n)
        if not r:
            cx().assume(self.k == z3.If(self.n > 0, self.n, z3.IntVal(0)))
            self.open = False
            if self.mark[2] in self.plan.known:
                self.went_on(self.n)
            for h in self.heaps:
                if hasattr(h, 'leave'):
                    h.leave(self)
        return r

    def went_on(self, k):
        """The iterations before k went on under one of the learnt conditions."""
        q = z3.Int('q?')
        self.gone = lambda q: z3.Implies(z3.And(q >= 0, q < k), z3.Or(*[heap.rename(f, i, q, n0) for f, i, n0 in self.plan.known[self.mark[2]]]))
        cx().assume(z3.ForAll([q], self.gone(q)))

    def elem(self):
        return self.seq.elem(self.k)

    def leave(self):
        """break out of the loop, or leave the function inside it"""
        if self.open and self.n is not None and self.mark[2] in self.plan.known:
            self.went_on(self.k)
        self.open = False

    def close(self, env):
        c = cx()
        for nm, v in self.sets:
            self.plan.added.setdefault((self.mark[2], nm), []).append(([sym.Name.of(x) for x in v.new], self.k, self.mark[1]))
        for nm, v, f in self.grown:
            ok = len(v.new) == 1 and c.entails(sym.Name.of(v.new[0]) == z3.substitute(f[0], (f[1], self.k)))
            c.record('%s: set %s holds what the iterations added' % (self.key, nm), 'proved' if ok else 'unknown')
            if not ok:
                c.imprecise = True
        if self.plan.search and self.seq is not None and not any(getattr(h, 'own_functions', False) for h in self.heaps):
            self.plan.seen.setdefault(self.mark[2], []).append((z3.And(*c.pc[self.mark[0]:]), self.k, self.mark[1]))
        for nm, pick in self.chosen.items():
            if pick is None:
                continue
            v = env.get(nm, Poison())
            want = pick.nxt(self.k)
            if not (compatible(v, want) and is_same(v, want)):
                nxt = (self.key, nm, pick.name)
                if nxt not in self.plan.ruled_out:
                    self.plan.ruled_out.add(nxt)
                    self.plan.why = 'candidate %s of %s is not inductive: got %r, wanted %r' % (pick.name, nm, v, want)
                    raise NeedRestartError()
            c.record('%s invariant %s = %s is inductive' % (self.key, nm, pick.name), 'proved')
        for nm, wn, f, v0 in self.weakly:
            v = env.get(nm)
            if not isinstance(v, (int, SymInt)) or not c.entails(f(v0, i_term(v))):
                self.plan.ruled_out.add((self.key, nm, wn))
                raise NeedRestartError()
            c.record('%s invariant %s %s' % (self.key, nm, wn), 'proved')
        if self.seq is None:
            grows = [nm for i, nm in enumerate(self.names) if isinstance(self.start[i], SymInt) and
                     isinstance(env.get(nm), (int, SymInt)) and c.entails(i_term(env[nm]) > self.start[i].t)]
            if self.plan.rank:
                self.plan.rank(self)
            elif self.plan.measure:
                c.prove('%s terminates: fewer iterations than the bound' % self.key, self.k < self.plan.measure(self), 'inv')
            else:
                c.record('%s terminates: an integer local strictly grows towards the bound of the condition' % self.key,
                         'proved' if grows else 'unknown', 'no growing local')
        for h in self.heaps:
            h.close(self)
        if self.plan.inv:
            c.prove('%s invariant is inductive' % self.key, self.plan.inv(self, z3.simplify(self.k + 1)), 'inv')
        raise sym.PathEnd('iteration closed')


class NeedRestartError(BaseException):
    pass


def compatible(a, b):
    kinds = ((int, SymInt), (SymBytes, bytes), (SymList, list), (bool, SymBool), (SymDict, dict))
    for k in kinds:
        if isinstance(a, k) and isinstance(b, k):
            return True
    return type(a) is type(b)


def vc_loop(key, it, env, names, owner=None):
    mut = []
    s = seq_of(it) if it is not None else None
    # lists mutated in place inside the body count as loop variables
    return Loop(key, s, env, names, owner)


def vc_b(x):
    return SymBytes.of(x)


def vc_comp(kind, it, fn, cond):
    it = it()
    if is_sym(it) or (isinstance(it, SymSeq)):
        s = seq_of(it)
        if kind == 'list' and cond is None and getattr(cx(), 'heaps', None):
            r = heap.map_step(s, fn, cx().heaps)
            if r is not None:
                return SymList([('seg', SymSeq(s.n, lambda i: r[0], 'results'), z3.IntVal(0), s.n)])
        if kind == 'set' and cond is None and getattr(cx(), 'make_set', None):
            return v_set(Comp('gen', s, fn, cond))
        c = Comp(kind, s, fn, cond)
        c.whole = it
        if kind != 'gen':
            c.force()
        return v_list(c) if kind == 'list' and cond is None else c
    if hasattr(type(it), '_mirror') and not hasattr(type(it), '__iter__'):
        raise Unsupported('iteration over %r' % type(it).__name__)
    g = (fn(x) for x in it if cond is None or cond(x))
    if kind == 'gen':
        return g
    if kind == 'list':
        return SymList([('item', x) for x in g]) if False else list(g)
    return v_set(list(g))


class Flat(object):
    """The items of fn(x) for all x of a symbolic sequence."""

    def __init__(self, seq, fn):
        self.seq, self.fn = seq, fn


def vc_flat(kind, it, fn, cond):
    it = it()
    if is_sym(it) or isinstance(it, SymSeq):
        if cond is not None or kind == 'list':
            raise Unsupported('nested comprehension')
        return Flat(seq_of(it), fn) if kind == 'gen' else v_set(Flat(seq_of(it), fn))
    g = (y for x in it if cond is None or cond(x) for y in fn(x))
    return g if kind == 'gen' else list(g) if kind == 'list' else v_set(list(g))


def universal(f):
    """f(i) holds for every index i: assumed at the indices that occur on this path."""
    c = cx()
    c.universals = getattr(c, 'universals', []) + [f]
    for i in getattr(c, 'instances', []):
        c.assume(f(i))


def instance(i):
    c = cx()
    c.instances = getattr(c, 'instances', []) + [i]
    for f in getattr(c, 'universals', []):
        c.assume(f(i))


class Table(object):
    """The dictionary a comprehension makes of a symbolic sequence: a key has the value of the last item with that key."""
    _kind = dict

    def __init__(self, seq, item):
        self.seq, self.item = seq, item

    def same(self, k, i):
        return to_term(sym.value_eq(self.item(self.seq.elem(i))[0], k))

    def find(self, k):
        """Index of the item that counts for k, or None."""
        c, s = cx(), self.seq
        if c.choose('key present'):
            i = z3.Int(c.fresh('found'))
            c.assume(z3.And(i >= 0, i < s.n, self.same(k, i)))
            universal(lambda j: z3.Implies(z3.And(j > i, j < s.n), z3.Not(self.same(k, j))))
            instance(i)
            return i
        universal(lambda j: z3.Implies(z3.And(j >= 0, j < s.n), z3.Not(self.same(k, j))))
        return None

    def get(self, k, d=None):
        i = self.find(k)
        return d if i is None else self.item(self.seq.elem(i))[1]

    def __getitem__(self, k):
        i = self.find(k)
        if i is None:
            raise SimError('KeyError', repr(k))
        return self.item(self.seq.elem(i))[1]

    def __contains__(self, k):
        return self.find(k) is not None

    def __bool__(self):
        return cx().branch(self.seq.n > 0)


def to_term(x):
    return x.t if isinstance(x, SymBool) else x if z3.is_expr(x) else z3.BoolVal(bool(x))


def vc_dictcomp(kind, it, fn, cond):
    it = it()
    if is_sym(it):
        if cond is not None:
            raise Unsupported('dictionary of some items of a symbolic sequence')
        return Table(seq_of(it), fn)
    return dict(fn(x) for x in it if cond is None or cond(x))


def v_dict(*a, **kw):
    if len(a) == 1 and not kw and is_sym(a[0]):
        return vc_dictcomp('dict', lambda: as_seq(a[0]), lambda x: x, None)
    return dict(*a, **kw)


BUILTINS['dict'] = v_dict
CALL_ONLY.add('dict')


def vc_join(sep, xs):
    if is_sym(xs) or isinstance(xs, (SymSeq, Comp)):
        return Tok('text')
    xs = list(xs)
    if all(isinstance(x, str) for x in xs):
        return sep.join(xs)
    if any(hasattr(x, 'sym_join') for x in xs):
        return next(x for x in xs if hasattr(x, 'sym_join')).sym_join(sep, xs)
    return Tok('text')


def vc_format(fmt, *a, **kw):
    if getattr(cx(), 'texts', False):
        r = sym.formatted(fmt, a, kw)
        if r is not None:
            return r
    return fmt.format(*a, **kw)


def vc_list(*xs):
    if getattr(cx(), 'make_list', None):
        return cx().make_list(*xs)
    return SymList([('item', x) for x in xs])


def vc_dict():
    return SymDict()


def vc_limit(state):
    state[0] += 1
    if state[0] > 64:
        raise Unsupported('while loop unrolled more than 64 times')
    return True


def vc_in(a, b):
    if isinstance(a, sym.Name) and type(b) in (set, frozenset, dict):
        return cx().branch(z3.Or(False, *[a.same(x) for x in b if isinstance(x, str)]))
    if isinstance(a, sym.Name) and isinstance(b, SymList):
        return cx().branch(name_in(b, a.t))
    return a in b


def name_in(xs, x):
    """x is one of the names of a list."""
    r = z3.Int('r?')
    return z3.Or(False, *[sym.Name.of(s[1]) == x if s[0] == 'item' else z3.Exists([r], z3.And(r >= s[2], r < s[3], sym.Name.of(s[1].elem(r)) == x))
                          for s in xs.segs])


HELPERS = {'VC_in': vc_in, 'VC_flat': vc_flat, 'VC_loop': vc_loop, 'VC_b': vc_b, 'VC_comp': vc_comp, 'VC_list': vc_list, 'VC_dict': vc_dict, 'VC_join': vc_join, 'VC_dictcomp': vc_dictcomp, 'VC_format': vc_format,
           'VC_issym': is_sym, 'VC_limit': vc_limit, 'VC_plans': PLANS}


class Rewriter(ast.NodeTransformer):
    def __init__(self, qual, params=()):
        self.qual = qual
        self.loops = 0
        self.lists = True
        self.tmp = 0
        self.generator = False
        self.scopes = []

    def visit_FunctionDef(self, node):
        outer = self.generator
        self.generator = is_generator(node)
        node.decorator_list = [] if getattr(node, '_top', False) else node.decorator_list
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        own = local_names(node)
        # lists and sets of the enclosing functions that are mutated here, in a loop
        far = set().union(*self.scopes) & mutated(st for st in ast.walk(node) if isinstance(st, (ast.For, ast.While))) - own
        self.scopes.append(own)
        node.body = self.block(node.body)
        self.scopes.pop()
        if far:
            node.body.insert(0, ast.Nonlocal(sorted(far)))
        if self.generator:
            node.body = [parse('VC_out = VC_list()')] + node.body + [parse('return VC_out')]
        self.generator = outer
        node.returns = None
        return node

    def block(self, body):
        out = []
        for st in body:
            r = self.visit(st)
            if isinstance(r, list):
                out += r
            elif r is not None:
                out.append(r)
        return out

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Yield):
            v = self.visit(node.value.value) if node.value.value else ast.Constant(None)
            call = parse('VC_out.append(0)')
            call.value.args = [v]
            return call
        if isinstance(node.value, ast.Constant):
            return node
        return self.generic_visit(node)

    def visit_Yield(self, node):
        raise Unsupported('yield as an expression')

    def visit_Constant(self, node):
        if isinstance(node.value, bytes):
            return ast.Call(ast.Name('VC_b', ast.Load()), [node], [])
        return node

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            r = ast.Call(ast.Name('VC_in', ast.Load()), [node.left, node.comparators[0]], [])
            return r if isinstance(node.ops[0], ast.In) else ast.UnaryOp(ast.Not(), r)
        return node

    def visit_Call(self, node):
        node = self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in CALL_ONLY:
            node.func = ast.Name('VC_call_' + node.func.id, ast.Load())
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr == 'join' and isinstance(f.value, ast.Constant) \
                and isinstance(f.value.value, str) and len(node.args) == 1:
            return ast.Call(ast.Name('VC_join', ast.Load()), [f.value, node.args[0]], [])
        if isinstance(f, ast.Attribute) and f.attr == 'format' and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str):
            return ast.Call(ast.Name('VC_format', ast.Load()), [f.value] + node.args, node.keywords)
        return node

    def visit_List(self, node):
        node = self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not node.elts:
            return ast.Call(ast.Name('VC_list', ast.Load()), [], [])
        return node

    def visit_Dict(self, node):
        node = self.generic_visit(node)
        if not node.keys:
            return ast.Call(ast.Name('VC_dict', ast.Load()), [], [])
        return node

    def comp(self, node, kind):
        if len(node.generators) not in (1, 2) or node.generators[0].is_async:
            return self.generic_visit(node)
        g = node.generators[0]
        it = self.visit(g.iter)
        two = len(node.generators) == 2
        elt = self.comp(ast.GeneratorExp(node.elt, node.generators[1:]), 'gen') if two else self.visit(node.elt)
        conds = [self.visit(c) for c in g.ifs]
        cond = None
        if conds:
            cond = conds[0] if len(conds) == 1 else ast.BoolOp(ast.And(), conds)

        def lam(body):
            if isinstance(g.target, ast.Name):
                return ast.Lambda(args([g.target.id]), body)
            if isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts):
                ids = [e.id for e in g.target.elts]
                ids = [n if n not in ids[k + 1:] else 'VC_dup%d' % k for k, n in enumerate(ids)]
                inner = ast.Lambda(args(ids), body)
                return ast.Lambda(args(['VC_x']), ast.Call(inner, [ast.Starred(ast.Name('VC_x', ast.Load()), ast.Load())], []))
            return None
        a, b = lam(elt), (lam(cond) if cond is not None else ast.Constant(None))
        if a is None or b is None:
            raise Unsupported('comprehension target')
        return ast.Call(ast.Name('VC_flat' if two else 'VC_comp', ast.Load()),
                        [ast.Constant(kind), ast.Lambda(args([]), it), a, b], [])

    def visit_GeneratorExp(self, node):
        return self.comp(node, 'gen')

    def visit_ListComp(self, node):
        return self.comp(node, 'list')

    def visit_SetComp(self, node):
        return self.comp(node, 'set')

    def visit_DictComp(self, node):
        if len(node.generators) != 1 or node.generators[0].is_async:
            return self.generic_visit(node)
        r = self.comp(ast.ListComp(ast.Tuple([node.key, node.value], ast.Load()), node.generators), 'dict')
        r.func.id = 'VC_dictcomp'
        return r

    def visit_For(self, node):
        self.loops += 1
        key = '%s#%d' % (self.qual, self.loops)
        self.tmp += 1
        t = self.tmp
        names = assigned(node.body)
        tgt = set(names_of(node.target))
        names = sorted(n for n in names if n not in tgt)
        if self.generator:
            names = sorted(set(names) | {'VC_out'})
        muts = mutated(node.body)
        names = sorted(set(names) | muts)
        it = self.visit(node.iter)
        body = self.block(node.body)
        orelse = self.block(node.orelse)
        import copy
        code = parse('''
VC_it%(t)d = 0
if VC_issym(VC_it%(t)d):
    VC_c%(t)d = VC_loop(%(key)r, VC_it%(t)d, locals(), %(names)r)
    %(lhs)s
    if VC_c%(t)d.more():
        try:
            for VC_once%(t)d in (0,):
                pass
            else:
                VC_c%(t)d.close(locals())
        finally:
            VC_c%(t)d.leave()
else:
    for _x in VC_it%(t)d:
        pass
''' % {'t': t, 'key': key, 'names': tuple(names),
            'lhs': ('(%s,) = VC_c%d.havoc()' % (', '.join(names), t)) if names else 'VC_c%d.havoc()' % t}, True)
        code[0].value = it
        iff = code[1]
        once = iff.body[2].body[0].body[0]
        once.body = [ast.Assign([copy.deepcopy(node.target)],
                                ast.Call(ast.Attribute(ast.Name('VC_c%d' % t, ast.Load()), 'elem', ast.Load()), [], []))] \
            + copy.deepcopy(body)
        if orelse:
            iff.body.append(parse('raise VC_unsupported("for-else")'))
        nat = iff.orelse[0]
        nat.target, nat.body, nat.orelse = node.target, body, orelse
        return code

    def visit_While(self, node):
        self.loops += 1
        key = '%s#%d' % (self.qual, self.loops)
        self.tmp += 1
        t = self.tmp
        names = sorted(set(assigned(node.body)) | mutated(node.body) | ({'VC_out'} if self.generator else set()))
        test = self.visit(node.test)
        body = self.block(node.body)
        orelse = self.block(node.orelse)
        import copy
        code = parse('''
if %(q)r in VC_plans and VC_plans[%(q)r].whiles:
    VC_c%(t)d = VC_loop(%(key)r, None, locals(), %(names)r)
    %(lhs)s
    if True:
        try:
            for VC_once%(t)d in (0,):
                pass
            else:
                VC_c%(t)d.close(locals())
        finally:
            VC_c%(t)d.leave()
    VC_c%(t)d.leave()
else:
    VC_w%(t)d = [0]
    while True:
        pass
''' % {'t': t, 'key': key, 'q': self.qual, 'names': tuple(names),
            'lhs': ('(%s,) = VC_c%d.havoc()' % (', '.join(names), t)) if names else 'VC_c%d.havoc()' % t}, True)
        iff = code[0]
        iff.body[2].test = copy.deepcopy(test)
        iff.body[2].body[0].body[0].body = copy.deepcopy(body)
        nat = iff.orelse[1]
        nat.test = ast.BoolOp(ast.And(), [test, parse('VC_limit(VC_w%d)' % t).value])
        nat.body, nat.orelse = body, orelse
        return code


def args(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[])


def parse(src, many=False):
    b = ast.parse(textwrap.dedent(src).strip()).body
    return b if many else b[0]


def names_of(t):
    return [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]


def assigned(body):
    res = set()
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                res.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                res.discard(n.name)
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.comprehension):
                for x in names_of(n.target):
                    res.discard(x)
            if isinstance(n, ast.ExceptHandler) and n.name:
                res.discard(n.name)
    return res


MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'add', 'update', 'setdefault'}


def mutated(body):
    """Plain locals mutated in place by a method call: `x.append(..)`."""
    res = set()
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS \
                    and isinstance(n.func.value, ast.Name) and n.func.value.id not in ('self', 'cls'):
                res.add(n.func.value.id)
    return res


def local_names(node):
    a = node.args
    res = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]}
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            res.add(n.id)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            res.add(n.name)
        elif not isinstance(n, ast.Lambda):
            todo += list(ast.iter_child_nodes(n))
    return res


def is_generator(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            continue
        todo += list(ast.iter_child_nodes(n))
    return False


class World(object):
    """A consistent set of extracted functions and classes."""

    def __init__(self, repo, overrides=None):
        self.repo = repo
        self.overrides = overrides or []
        self.fns = {}
        self.classes = {}
        self.sources = []

    def ours(self, obj):
        m = getattr(obj, '__module__', None) or ''
        return m.split('.')[0] in ('prophy', 'prophyc')

    def fn(self, f, qual=None):
        """The extracted version of a plain function object."""
        if f in self.fns:
            return self.fns[f]
        src = textwrap.dedent(inspect.getsource(f))
        tree = ast.parse(src)
        node = tree.body[0]
        if isinstance(node, ast.ClassDef) or not isinstance(node, ast.FunctionDef):
            raise Unsupported('cannot extract %r' % f)
        node._top = True
        q = qual or f.__qualname__.replace('<locals>.', '')
        self.sources.append((q, inspect.getsourcefile(f), f.__code__.co_firstlineno))
        Rewriter(q).visit(node)
        free = f.__code__.co_freevars
        if any(f is real for real, _ in self.overrides):
            # its own recursive calls are known by the contract
            node.name += '_'
        name = node.name
        fac = ast.FunctionDef('VC_factory', args(list(free)), [node, ast.Return(ast.Name(name, ast.Load()))], [])
        if hasattr(fac, 'type_params'):
            fac.type_params = []
        mod = ast.Module([fac], [])
        ast.fix_missing_locations(mod)
        g = {}
        self.fns[f] = None
        code = compile(mod, inspect.getsourcefile(f), 'exec')
        used = set()

        def walk(co):
            used.update(co.co_names)
            for k in co.co_consts:
                if isinstance(k, types.CodeType):
                    walk(k)
        walk(code)
        g['__builtins__'] = builtins
        g.update(HELPERS)
        g['VC_unsupported'] = Unsupported
        for k, v in BUILTINS.items():
            if k in CALL_ONLY:
                g['VC_call_' + k] = v
            else:
                g[k] = v
        self.fns[f] = holder = _Late()
        for nm in used:
            if nm in f.__globals__:
                v = f.__globals__[nm]
                # an imported alias of a call-only builtin (six.xrange, six.long) keeps its own name
                g[nm] = self.value(v, nm, f)
                if nm in CALL_ONLY and nm not in ('xrange',):
                    g['VC_call_' + nm] = g[nm]
        exec(code, g)
        cells = []
        for n, cell in zip(free, f.__closure__ or ()):
            try:
                v = cell.cell_contents
            except ValueError:
                v = None
            cells.append(self.value(v, n, f) if n != name else None)
        r = g['VC_factory'](*cells)
        r.__defaults__ = f.__defaults__
        r.__kwdefaults__ = f.__kwdefaults__
        holder.target = r
        self.fns[f] = r
        r._real = f
        return r

    def value(self, v, nm, owner):
        for real, ov in self.overrides:
            if v is real:
                return ov
        if isinstance(v, types.FunctionType) and self.ours(v):
            return self.fn(v)
        if isinstance(v, type) and v in self.classes:
            return self.classes[v]
        if isinstance(v, types.ModuleType) and v.__name__.split('.')[0] in ('prophy', 'prophyc'):
            return ModView(self, v)
        return v

    def declare(self, *Ks):
        """Mirrors of classes: the same functions, extracted.  Declared first so that they can refer to each other;
        the MRO of the original is reproduced over the mirrored classes."""
        for K in Ks:
            bases = tuple(self.classes[b] for b in K.__bases__ if b in self.classes) or (object,)
            self.classes[K] = type(K.__name__, bases, {'_mirror': True, '_mirror_of': K})
        for K in Ks:
            self.fill(K)

    def fill(self, K):
        M = self.classes[K]
        ns = {}
        for C in reversed([c for c in K.__mro__ if self.ours(c) and (c is K or c not in self.classes)]):
            ns.update(C.__dict__)
        for n, v in ns.items():
            if n in ('__dict__', '__weakref__', '__slots__', '__doc__', '__module__', '__hash__', '__new__'):
                continue
            if isinstance(v, types.MemberDescriptorType):
                continue
            try:
                if isinstance(v, types.FunctionType):
                    v = self.fn(v)
                elif isinstance(v, staticmethod):
                    v = staticmethod(self.fn(v.__func__))
                elif isinstance(v, classmethod):
                    v = classmethod(self.fn(v.__func__))
                elif isinstance(v, property):
                    v = property(*[self.fn(x) if x else None for x in (v.fget, v.fset, v.fdel)])
            except (Unsupported, OSError, SyntaxError) as e:
                v = _Missing(n, str(e))
            setattr(M, n, v)


class ModView(object):
    """A module of the project seen from extracted code: its functions are the extracted ones."""

    def __init__(self, W, mod):
        self.__dict__.update(_W=W, _mod=mod)

    def __getattr__(self, n):
        v = getattr(self._mod, n)
        for real, ours in ((range, v_range), (filter, v_filter), (map, v_map), (zip, v_zip)):
            if v is real:
                return ours
        return self._W.value(v, n, None)


class _Late(object):
    target = None

    def __call__(self, *a, **k):
        return self.target(*a, **k)


class _Missing(object):
    def __init__(self, n, why):
        self.n, self.why = n, why

    def __get__(self, *_):
        raise Unsupported('%s: %s' % (self.n, self.why))


# ------------------------------------------------------------------ running a contract

class Result(object):
    def __init__(self, function):
        self.function = function
        self.obs = []           # (name, status, detail, model, info)
        self.paths = 0
        self.outcomes = {}
        self.notes = set()


def verify(function, run, plans=None, expect=(), max_paths=400):
    """Runs `run(ctx)` on every path; run issues obligations.  Restarts when a loop invariant candidate falls.
    `expect` names outcomes that must be reachable (vacuity guard); run reports them by ctx.outcome = name."""
    res = Result(function)
    PLANS.clear()
    PLANS.update(plans or {})
    t0 = sym.Ctx.stats['solver_s']
    import time
    wall = time.time()
    for attempt in range(40):
        for p in PLANS.values():
            p.seen, p.added = {}, {}
        try:
            paths = sym.explore(run, max_paths)
            if learn():
                continue
        except NeedRestartError:
            continue
        except Unsupported as e:
            res.obs = [('%s: extraction' % function, 'unsupported', 'Unsupported: %s' % e, None, None)]
            break
        except (SimError, PathEndErr) as e:
            res.obs = [('%s: exception' % function, 'unknown', repr(e), None, None)]
            break
        except RecursionError as e:
            res.obs = [('%s: recursion' % function, 'unsupported', repr(e), None, None)]
            break
        except Exception as e:
            import traceback
            res.obs = [('%s: engine' % function, 'unsupported', traceback.format_exc()[-1500:], None, None)]
            break
        res.paths = len(paths)
        for c in paths:
            if getattr(c, 'imprecise', False):
                # a local is only abstracted: a counterexample here need not be one of the code
                c.obs = [(n, 'unknown' if st == 'refuted' else st, d, m, i) for n, st, d, m, i in c.obs]
            res.obs += c.obs
            o = getattr(c, 'outcome', None)
            res.outcomes[o] = res.outcomes.get(o, 0) + 1
            res.notes |= set(c.notes)
        for e in expect:
            res.obs.append(('%s: outcome %s reachable' % (function, e), 'proved' if res.outcomes.get(e) else 'unknown',
                            'no path with outcome %s: %r' % (e, res.outcomes), None, None))
        break
    else:
        res.obs = [('%s: invariants' % function, 'unknown', 'no inductive candidate set', None, None)]
    res.solver_s = sym.Ctx.stats['solver_s'] - t0
    res.wall = time.time() - wall
    return res


def learn():
    """What the finished paths tell about the loops; True if there is anything new."""
    new = False
    for p in PLANS.values():
        for key, got in p.added.items():
            if key in p.adds or key in p.ruled_out:
                continue
            new = True
            ts = {z3.substitute(ts[0], (k, z3.Int('a?'))).sexpr() for ts, k, _ in got if len(ts) == 1}
            ts0, k, n0 = got[0]
            if all(len(ts) == 1 for ts, _, _ in got) and len(ts) == 1 and not sym.has_fresh(ts0[0], n0, k):
                p.adds[key] = (ts0[0], k)
            else:
                p.ruled_out.add(key)
    if new:
        # conditions found with less knowledge of the sets are not worth keeping
        for p in PLANS.values():
            p.known = {}
        return True
    for p in PLANS.values():
        if p.search and set(p.seen) - set(p.known):
            p.known = {**p.seen, **p.known}
            new = True
    return new


class PathEndErr(Exception):
    pass
