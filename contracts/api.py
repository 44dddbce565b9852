"""Contracts of the Python message API (C10, C11): arrays, fields, discriminators and copying.

Every operation starts in an arbitrary valid state and gets arbitrary arguments.  Its effect is the one of the plain
reference operation, or it is rejected; it is rejected exactly when the reference says so, and then nothing changed.
The array behind an array field is a Python list: RefList is the (trusted) contract of list, whose contents are the
unknown initial contents plus the operations made since.
"""
import z3

from contracts.base import SimError, SymBool, SymInt, SymSeq, Tok, Unsupported, cx, i_term, sym, xform
from contracts.rt import ProphyError
from contracts.world import prophy, world
from engine.sym import SymList
from engine.xform import Cand, LoopPlan

I, B = z3.IntSort(), z3.BoolSort()
BAD = z3.Function('bad', I, B)
TRUE, STORED_TRUE = z3.Function('is true', I, B), z3.Function('is true as stored', I, B)


# ------------------------------------------------------------------ values, types, lists

class Val(object):
    """An arbitrary argument; its type's _check accepts it unless bad."""

    def __init__(self, key, bad=None):
        self.key = i_term(key)
        self.bad = BAD(self.key) if bad is None else bad

    def sym_eq(self, o):
        return isinstance(o, Val) and z3.simplify(self.key == o.key)

    def __bool__(self):
        return cx().branch(TRUE(self.key))

    def __repr__(self):
        return 'Val(%s)' % z3.simplify(self.key)

    def __format__(self, spec):
        return repr(self)


class Checked(object):
    def __init__(self, v):
        self.v = v

    def sym_eq(self, o):
        return isinstance(o, Checked) and sym.value_eq(self.v, o.v)

    def __bool__(self):
        return cx().branch(STORED_TRUE(self.v.key))

    def __repr__(self):
        return 'checked %r' % (self.v,)


class ElemScalar(object):
    _DEFAULT = Tok('default')
    _OPTIONAL = False
    _SIZE = 4

    @staticmethod
    def _check(v):
        """Trusted here, proved for every scalar type (tag check): the value as stored, or ProphyError."""
        if isinstance(v, Checked) or v is ElemScalar._DEFAULT:
            return v
        if not isinstance(v, Val):
            raise Unsupported('check of %r' % (v,))
        if cx().branch(v.bad):
            raise ProphyError('bad value')
        return Checked(v)


class Slice(object):
    """An arbitrary slice object."""

    def __init__(self, c):
        self.ext = z3.Bool(c.fresh('extended'))
        self.count = z3.Function(c.fresh('slicelen'), I, I)

    def sym_isinstance(self, cs):
        return slice in cs

    def length(self, n):
        k = self.count(n)
        cx().assume(z3.And(k >= 0, k <= n))
        return k


class Junk(object):
    """A wrongly typed index."""

    def sym_isinstance(self, cs):
        return False


class RefList(object):
    """Trusted contract of list: unknown initial contents and the operations applied to them."""
    _kind = list

    def __init__(self, name, n, ops=()):
        self.name, self.n, self.ops = name, i_term(n), list(ops)
        self.epoch = len(cx().loops)

    def sym_len(self):
        return SymInt(self.n)

    def sym_isinstance(self, cs):
        return list in cs

    def _do(self, n, *op):
        sym.guard_write(self)
        self.n = z3.simplify(i_term(n))
        self.ops.append(op)

    def append(self, v):
        self._do(self.n + 1, 'append', v)

    def insert(self, i, v):
        if isinstance(i, (Junk, Slice)):
            raise SimError('TypeError')
        self._do(self.n + 1, 'insert', i, v)

    def extend(self, vs):
        vs = listed(vs)
        self._do(self.n + vs.n, 'extend', vs)

    def __iadd__(self, vs):
        self.extend(vs)
        return self

    def remove(self, v):
        if cx().choose('missing element'):
            raise SimError('ValueError')
        self._do(self.n - 1, 'remove', v)

    def _index(self, i):
        if isinstance(i, Junk):
            raise SimError('TypeError')
        i = i_term(i)
        if not cx().branch(z3.And(i >= -self.n, i < self.n)):
            raise SimError('IndexError')
        return i

    def _whole(self, s):
        return isinstance(s, slice) and s.start is None and s.stop is None and s.step is None

    def __getitem__(self, i):
        if isinstance(i, Slice):
            return SymSeq(i.length(self.n), lambda k: Tok('sliced', SymInt(k)), 'slice')
        if self._whole(i):
            src, ops = self.name, tuple(map(tuple, self.ops))
            return Whole(src, self.n, ops)
        if isinstance(i, slice):
            raise Unsupported('slice of the array')
        return Tok('item', SymInt(self._index(i)))

    def __setitem__(self, i, v):
        if isinstance(i, Slice):
            k, vs = i.length(self.n), listed(v)
            if cx().branch(z3.And(i.ext, vs.n != k)):
                raise SimError('ValueError')
            self._do(self.n + vs.n - k, 'setslice', i, vs)
        elif self._whole(i):
            vs = listed(v)
            sym.guard_write(self)
            self.n, self.ops = vs.n, [('become', vs)]
        elif isinstance(i, slice):
            raise Unsupported('slice of the array')
        else:
            self._do(self.n, 'setitem', SymInt(self._index(i)), v)

    def __delitem__(self, i):
        if isinstance(i, Slice):
            self._do(self.n - i.length(self.n), 'delslice', i)
        elif self._whole(i):
            sym.guard_write(self)
            self.n, self.ops = z3.IntVal(0), [('become', SymSeq(z3.IntVal(0), lambda k: None))]
        elif isinstance(i, slice):
            raise Unsupported('slice of the array')
        else:
            self._do(self.n - 1, 'delitem', SymInt(self._index(i)))

    def sym_list(self):
        return self[:]

    def sym_seq(self):
        return self[:]

    def __repr__(self):
        return '%s(%s) %s' % (self.name, self.n, self.ops)


class Whole(SymSeq):
    """The contents of a RefList at some time, copied: elements are named by list and position."""

    def __init__(self, name, n, ops):
        SymSeq.__init__(self, n, lambda i: Tok('of ' + name, SymInt(i)), name)
        if ops:
            raise Unsupported('contents of a changed list')


def listed(vs):
    if isinstance(vs, Whole):
        return vs
    if isinstance(vs, (SymSeq, SymList, sym.Comp, list, tuple)):
        return sym.as_seq(vs)
    if hasattr(vs, 'sym_list'):
        return sym.as_seq(vs.sym_list())
    raise Unsupported('list of %r' % type(vs).__name__)


class NoIter(object):
    """Something that is neither a sequence nor iterable."""

    def sym_list(self):
        raise SimError('TypeError', 'not iterable')

    sym_len = sym_list

    def __bool__(self):
        return True


class OneShot(object):
    """An iterator: true, without a length, and empty once consumed."""

    def __init__(self, seq):
        self.seq, self.used = seq, False

    def sym_list(self):
        if self.used:
            return SymList()
        self.used = True
        return SymList([('seg', self.seq, z3.IntVal(0), self.seq.n)])

    def sym_len(self):
        raise SimError('TypeError', 'no len')

    def __bool__(self):
        return True


def ops_same(got, want):
    """True | False | formula | None when the forms are not comparable"""
    def normal(ops):
        r = []
        for o in ops:
            if o[0] == 'extend' and cx().entails(o[1].n == 0):
                continue
            if o[0] == 'extend' and z3.is_int_value(z3.simplify(o[1].n)) and z3.simplify(o[1].n).as_long() == 1:
                o = ('append', o[1].elem(z3.IntVal(0)))
            r.append(o)
        return r
    got, want = normal(got), normal(want)
    if [o[0] for o in got] != [o[0] for o in want]:
        return None
    fs = []
    for a, b in zip(got, want):
        if len(a) != len(b):
            return None
        for x, y in zip(a[1:], b[1:]):
            if isinstance(y, SymSeq):
                x = sym.as_seq(x)
                i = z3.Int(cx().fresh('i'))
                fs.append(x.n == y.n)
                if x is not y and not sym.summar_formula(lambda: sym.value_eq(x.elem(i), y.elem(i)),
                                                         z3.And(i >= 0, i < y.n)):
                    return False
                continue
            r = sym.value_eq(x, y)
            if r is False:
                return False
            if r is not True:
                fs.append(r)
    return z3.And(*fs) if fs else True


def want_ops(name, lst, want):
    r = ops_same(lst.ops, want)
    c = cx()
    if r is None:
        c.record(name, 'unknown', 'got %r wanted %r' % (lst.ops, want))
    elif r is True or r is False:
        c.record(name, 'proved' if r else 'refuted', 'got %r wanted %r' % (lst.ops, want))
    else:
        c.prove(name, r)


def attempt(c, fn):
    """'return' | 'ProphyError' | name of the exception a builtin raised"""
    try:
        v = fn()
        c.outcome = 'return'
        return 'return', v
    except ProphyError as e:
        c.outcome = 'ProphyError'
        return 'ProphyError', e
    except SimError as e:
        c.outcome = e.kind
        return e.kind, e


# ------------------------------------------------------------------ arrays

class Case(object):
    """One array operation: arguments, what the reference does and when it refuses."""

    def __init__(self, call, ops, refuse, list_error=False):
        self.call, self.ops, self.refuse, self.list_error = call, ops, refuse, list_error


def fresh_values(c):
    """Any number of arguments; either none is refused or the one at some index w is."""
    n = c.int('count', 0)
    if c.choose('some argument is refused'):
        w = c.int('w', 0)
        c.assume(w < n)
        c.witnesses = [w]
        seq = SymSeq(n, lambda i: Val(i + 100, z3.Or(i == w, BAD(i + 100))), 'arguments')
        seq.refused = z3.BoolVal(True)
    else:
        seq = SymSeq(n, lambda i: Val(i + 100, z3.BoolVal(False)), 'arguments')
        seq.refused = z3.BoolVal(False)
    return seq


def array_case(op, c, n, limit, bound):
    v = Val(z3.IntVal(1))
    full = z3.And(limit > 0, n >= limit)
    if op == 'append':
        return Case(lambda a: a.append(v), [('append', Checked(v))], z3.Or(v.bad, full))
    if op in ('insert', 'insert at a wrong index'):
        i = SymInt(c.int('i')) if op == 'insert' else Junk()
        return Case(lambda a: a.insert(i, v), [('insert', i, Checked(v))], z3.Or(v.bad, full), op != 'insert')
    if op in ('extend', 'extend by an iterator'):
        s = fresh_values(c)
        arg = s if op == 'extend' else OneShot(s)
        return Case(lambda a: a.extend(arg), [('extend', SymSeq(s.n, lambda i: Checked(Val(i + 100))))],
                    z3.Or(s.refused, z3.And(limit > 0, n + s.n > limit)))
    if op == 'extend by a non-iterable':
        return Case(lambda a: a.extend(NoIter()), [], z3.BoolVal(True))
    if op in ('item', 'item at a wrong index'):
        i = SymInt(c.int('i')) if op == 'item' else Junk()

        def put(a):
            a[i] = v
        return Case(put, [('setitem', i, Checked(v))], v.bad, True)
    if op in ('slice', 'slice by an iterator'):
        s, sl = fresh_values(c), Slice(c)
        k = sl.length(n)
        arg = s if op == 'slice' else OneShot(s)

        def put(a):
            a[sl] = arg
        over = z3.And(limit > 0, n + s.n - k > limit) if bound else s.n != k
        return Case(put, [('setslice', sl, SymSeq(s.n, lambda i: Checked(Val(i + 100))))],
                    z3.Or(s.refused, over), True)
    if op == 'slice from a non-iterable':
        sl = Slice(c)

        def put(a):
            a[sl] = NoIter()
        return Case(put, [], z3.BoolVal(True))
    if op in ('delete', 'delete at a wrong index'):
        i = SymInt(c.int('i')) if op == 'delete' else Junk()

        def rm(a):
            del a[i]
        return Case(rm, [('delitem', i)], z3.BoolVal(False), True)
    if op == 'delete slice':
        sl = Slice(c)

        def rm(a):
            del a[sl]
        return Case(rm, [('delslice', sl)], z3.BoolVal(False))
    if op == 'remove':
        return Case(lambda a: a.remove(v), [('remove', v)], z3.BoolVal(False), True)
    raise KeyError(op)


BOUND_OPS = ('append', 'insert', 'insert at a wrong index', 'extend', 'extend by an iterator',
             'extend by a non-iterable', 'item', 'item at a wrong index', 'slice', 'slice by an iterator',
             'slice from a non-iterable', 'delete', 'delete at a wrong index', 'delete slice', 'remove')
FIXED_OPS = ('item', 'item at a wrong index', 'slice', 'slice by an iterator', 'slice from a non-iterable')


def make_array(K, tp, n, limit):
    W = world()
    M = type('array', (W.classes[K],), {'_max_len': SymInt(limit), '_TYPE': tp})
    a = M.__new__(M)
    a._values = RefList('contents', n)
    return a


def scalar_arrays():
    res = []
    for K, ops in ((prophy.container.bound_scalar_array, BOUND_OPS), (prophy.container.fixed_scalar_array, FIXED_OPS)):
        bound = K is prophy.container.bound_scalar_array
        for op in ops:
            res.append(one_array_op(K, op, bound))
    return res


def one_array_op(K, op, bound):
    name = 'prophy.%s: %s' % (K.__name__, op)

    def run(c):
        n, limit = c.int('len', 0), c.int('limit', 0)
        c.assume(z3.Implies(limit > 0, n <= limit) if bound else z3.And(limit > 0, n == limit))
        case = array_case(op, c, n, limit, bound)
        a = make_array(K, ElemScalar, n, limit)
        lst = a._values
        how, e = attempt(c, lambda: case.call(a))
        if how == 'return':
            c.prove('%s: accepted only if the reference accepts' % name, z3.Not(case.refuse))
            c.prove('%s: the array stays the same list' % name, z3.BoolVal(a._values is lst or
                                                                           isinstance(a._values, RefList)))
            want_ops('%s: effect is the one of the plain list operation' % name, a._values, case.ops)
            if bound:
                c.prove('%s: never above the limit' % name, z3.Implies(limit > 0, a._values.n <= limit))
            else:
                c.prove('%s: length never changes' % name, a._values.n == n)
            return
        if how == 'ProphyError':
            c.prove('%s: refused only if the reference refuses' % name, case.refuse)
        else:
            ok = case.list_error and how in ('IndexError', 'ValueError', 'TypeError')
            c.record('%s: raises ProphyError or list-style errors only' % name, 'proved' if ok else 'refuted', how)
        c.record('%s: a rejected operation changes nothing' % name,
                 'proved' if a._values is lst and not lst.ops else 'refuted', repr(lst))
    return xform.verify(name, run, {}, ('return',) if 'non-iterable' not in op and 'wrong' not in op else ())


# ------------------------------------------------------------------ struct fields

class FieldOf(object):
    discriminator = 7

    def __init__(self, name, type_):
        self.name, self.type = name, type_


class Comp(object):
    """A nested message: mutable, compared by identity; copy_from is used by its contract (equal, independent)."""

    def __init__(self, state=None, bad=None):
        self.state, self.bad = Tok('default message') if state is None else state, bad

    def copy_from(self, src):
        if not isinstance(src, Comp):
            raise Unsupported('copy from %r' % (src,))
        if src.bad is not None and cx().branch(src.bad):
            raise SimError('TypeError', 'other class')
        self.state = Tok('copy', src.state)
        self.on_copy(src)

    def on_copy(self, src):
        pass

    def sym_type(self):
        return CompType(False)

    def sym_isinstance(self, cs):
        return any(getattr(k, '_mirror_of', k) in (prophy.composite.struct, object) for k in cs)

    def sym_eq(self, o):
        """as an element of a list: a fresh message with this state"""
        return isinstance(o, Comp) and sym.value_eq(self.state, o.state)

    def __repr__(self):
        return 'message %r' % (self.state,)


class CompType(object):
    _DYNAMIC = False
    _BOUND = None

    def __init__(self, optional):
        self._OPTIONAL = optional

    def __call__(self):
        return Comp()

    def sym_issubclass(self, cs):
        return prophy.composite.struct in cs


class ScalarType(ElemScalar):
    def __init__(self, optional):
        self._OPTIONAL = optional

    def sym_issubclass(self, cs):
        return False


class ArrayType(object):
    _OPTIONAL = False

    def __call__(self):
        return Comp(Tok('default array'))

    def sym_issubclass(self, cs):
        return prophy.base_array.base_array in cs


def add_property(kind, M, field):
    """The property the generator defines for a field, on class M."""
    G = prophy.generators.union_generator if 'union' in kind else prophy.generators.struct_generator
    m = {'scalar': 'add_scalar_property', 'composite': 'add_composite_property', 'array': 'add_repeated_property',
         'union scalar': 'add_union_scalar_property', 'union composite': 'add_union_composite_property'}[kind]
    world().fn(getattr(G, m))(M, field)
    return getattr(G, m).__qualname__


def snapshot(msg):
    return dict(msg._fields)


def unchanged(c, name, msg, before, but=()):
    now = msg._fields
    keys = set(before) | set(now)
    ok = all(k in but or (k in before and k in now and before[k] is now[k]) for k in keys)
    c.record(name, 'proved' if ok else 'refuted', 'before %r now %r' % (before, now))


FIELD_CASES = [('scalar', False), ('scalar', True), ('composite', False), ('composite', True), ('array', False)]


def struct_fields():
    res = []
    for kind, opt in FIELD_CASES:
        name = 'prophy struct field: %s%s' % ('optional ' if opt else '', kind)

        def setup(c):
            M = type('Msg', (object,), {})
            tp = {'scalar': ScalarType, 'composite': CompType}[kind](opt) if kind != 'array' else ArrayType()
            add_property(kind, M, FieldOf('x', tp))
            m = M()
            other = Tok('other field')
            m._fields = {'other': other}
            old = None
            state = 'absent'
            if c.choose('set before'):
                old = Checked(Val(z3.IntVal(5))) if kind == 'scalar' else Comp(Tok('old'))
                state = 'set'
                m._fields['x'] = old
            elif kind == 'scalar' and opt and c.choose('cleared before'):
                m._fields['x'] = None
                state = 'cleared'
            default = None if opt else (ElemScalar._DEFAULT if kind == 'scalar' else None)
            return m, state, old, default

        def get(c):
            m, state, old, default = setup(c)
            before = snapshot(m)
            how, v = attempt(c, lambda: m.x)
            c.prove('%s: can be read' % name, z3.BoolVal(how == 'return'))
            if how != 'return':
                return
            if state == 'set':
                c.prove('%s: reads what was stored' % name, z3.BoolVal(v is old))
            elif kind == 'scalar' or opt:
                c.prove('%s: reads the default when never set' % name, z3.BoolVal(v is default))
            else:
                c.prove('%s: starts as a fresh default object' % name,
                        z3.BoolVal(isinstance(v, Comp) and v.state.name_.startswith('default')))
            how, w = attempt(c, lambda: m.x)
            c.prove('%s: reading twice gives the same object' % name, z3.BoolVal(how == 'return' and w is v))
            unchanged(c, '%s: reading changes no other field' % name, m, before, ('x',))

        def put(c):
            m, state, old, default = setup(c)
            before = snapshot(m)
            v = Val(z3.IntVal(1))
            arg = None if c.choose('assign None') else True if c.choose('assign True') else v
            if kind == 'scalar' and arg is True:
                raise sym.PathEnd('not a case')
            if kind == 'scalar' and arg is None and not opt:
                raise sym.PathEnd('refused by _check')

            def do():
                m.x = arg
            how, _ = attempt(c, do)
            if kind == 'scalar':
                refuse = z3.BoolVal(False) if arg is None else v.bad
            elif kind == 'composite' and opt:
                refuse = z3.BoolVal(arg is v)
            else:
                refuse = z3.BoolVal(True)
            c.prove('%s: assignment raises nothing but ProphyError' % name, z3.BoolVal(how in ('return', 'ProphyError')))
            if how != 'return':
                c.prove('%s: assignment refused only if the reference refuses' % name, refuse)
                unchanged(c, '%s: a refused assignment changes nothing' % name, m, before)
                return
            c.prove('%s: assignment accepted only if the reference accepts' % name, z3.Not(refuse))
            unchanged(c, '%s: assignment changes no other field' % name, m, before, ('x',))
            how, r = attempt(c, lambda: m.x)
            if kind == 'scalar' and arg is not None:
                ok = how == 'return' and isinstance(r, Checked) and r.v is v
                c.prove('%s: the checked value is stored' % name, z3.BoolVal(ok))
            elif arg is None:
                c.prove('%s: None clears it' % name, z3.BoolVal(how == 'return' and r is None))
            else:
                ok = how == 'return' and isinstance(r, Comp) and r is not old and r.state.name_ == 'default message'
                c.prove('%s: True enables a fresh default message' % name, z3.BoolVal(ok))
        res.append(xform.verify(name + ' read', get, {}, ('return',)))
        res.append(xform.verify(name + ' assignment', put, {}, ('return',) if kind == 'scalar' or opt else ('ProphyError',)))
    return res


# ------------------------------------------------------------------ unions

class Name(object):
    """The name of the i-th arm; names are distinct."""

    def __init__(self, i):
        self.i = i

    def __eq__(self, o):
        return SymBool(self.i == o.i) if isinstance(o, Name) else False

    def __ne__(self, o):
        return SymBool(self.i != o.i) if isinstance(o, Name) else True

    def sym_isinstance(self, cs):
        return str in cs

    __hash__ = None


class UField(object):
    def __init__(self, i, env):
        self.i, self.env = i_term(i), env
        self.name = Name(self.i)

    @property
    def discriminator(self):
        d = self.env['disc'](self.i)
        self.env['fact'](self.i)
        return SymInt(d)

    def __ne__(self, o):
        return SymBool(self.i != o.i)

    def __eq__(self, o):
        return SymBool(self.i == o.i)

    __hash__ = None


def discriminators():
    name = 'prophy.generators.union_generator.add_union_discriminator_property'
    f = world().fn(prophy.generators.union_generator.add_union_discriminator_property)

    def setup(c):
        n = c.int('arms', 1)
        DISC = z3.Function('disc', I, I)
        env = {'disc': DISC, 'fact': lambda i: None}
        M = type('Msg', (object,), {})
        f(M)
        m = M()
        cur = c.int('current', 0)
        c.assume(cur < n)
        m._descriptor = SymSeq(n, lambda i: UField(i, env), 'descriptor')
        m._discriminated = UField(cur, env)
        m._fields = {'x': Tok('arm value')}
        return m, n, DISC, env, cur

    def run(c):
        m, n, DISC, env, cur = setup(c)
        before = m._fields
        copy = dict(before)
        byname = c.choose('by name')
        if c.choose('known'):
            g = c.int('g', 0)
            c.assume(g < n)
            arg = UField(g, env).name if byname else SymInt(DISC(g))
            env['fact'] = lambda i: c_assume(z3.Implies(DISC(i) == DISC(g), i == g))
            xform.PLANS['union_generator.add_union_discriminator_property'] = LoopPlan(inv=lambda lp, k: g >= k)
        else:
            g = None
            if byname:
                arg = Name(z3.IntVal(-1))
            else:
                arg = SymInt(c.int('d'))
                env['fact'] = lambda i: c_assume(DISC(i) != arg.t)
            xform.PLANS['union_generator.add_union_discriminator_property'] = LoopPlan()

        def c_assume(x):
            cx().assume(x)

        def do():
            m.discriminator = arg
        how, _ = attempt(c, do)
        c.prove('%s: raises nothing but ProphyError' % name, z3.BoolVal(how in ('return', 'ProphyError')))
        if how == 'return':
            c.prove('%s: accepted only for a discriminator of the union' % name, z3.BoolVal(g is not None))
            if g is None:
                return
            c.prove('%s: the arm asked for is selected' % name, m._discriminated.i == g)
            kept = m._fields is before and before == copy
            c.prove('%s: selecting the current arm keeps it, switching resets' % name,
                    z3.If(g == cur, z3.BoolVal(kept), z3.BoolVal(not m._fields)))
        else:
            c.prove('%s: refused only for an unknown discriminator' % name, z3.BoolVal(g is None))
            c.prove('%s: a refused switch changes nothing' % name,
                    z3.And(m._discriminated.i == cur, z3.BoolVal(m._fields is before and before == copy)))

    def read(c):
        m, n, DISC, env, cur = setup(c)
        how, v = attempt(c, lambda: m.discriminator)
        c.prove('%s: reads the selected discriminator' % name,
                i_term(v) == DISC(cur) if how == 'return' else z3.BoolVal(False))
    plan = {'union_generator.add_union_discriminator_property': LoopPlan()}
    return [xform.verify(name, run, plan, ('return', 'ProphyError')), xform.verify(name + ' getter', read, {}, ('return',))]


def union_fields():
    res = []
    for kind in ('scalar', 'composite'):
        name = 'prophy union field: %s' % kind

        def setup(c):
            M = type('Msg', (object,), {})
            tp = {'scalar': ScalarType, 'composite': CompType}[kind](False)
            f, g = FieldOf('x', tp), FieldOf('y', tp)
            add_property('union ' + kind, M, f)
            m = M()
            m._fields, old = {}, None
            selected = c.choose('selected')
            m._discriminated = f if selected else g
            if selected and c.choose('set before'):
                m._fields['x'] = old = Checked(Val(z3.IntVal(5))) if kind == 'scalar' else Comp(Tok('old'))
            elif not selected and c.choose('other set'):
                m._fields['y'] = Tok('other arm')
            return m, f, g, selected, old

        def run(c):
            m, f, g, selected, old = setup(c)
            before, d = snapshot(m), m._discriminated
            writing = c.choose('write')
            v = Val(z3.IntVal(1))

            def do():
                if writing:
                    m.x = v
                else:
                    return m.x
            how, r = attempt(c, do)
            c.prove('%s: raises nothing but ProphyError' % name, z3.BoolVal(how in ('return', 'ProphyError')))
            c.prove('%s: never changes the selected arm' % name, z3.BoolVal(m._discriminated is d))
            refuse = z3.BoolVal(not selected)
            if writing:
                refuse = z3.Or(refuse, v.bad) if kind == 'scalar' else z3.BoolVal(True)
            if how != 'return':
                c.prove('%s: refused only if the reference refuses' % name, refuse)
                unchanged(c, '%s: a refused access changes nothing' % name, m, before)
                return
            c.prove('%s: only the selected arm is accessible' % name, z3.Not(refuse))
            unchanged(c, '%s: no other arm appears' % name, m, before, ('x',))
            how, w = attempt(c, lambda: m.x)
            if writing:
                c.prove('%s: the checked value is stored' % name,
                        z3.BoolVal(how == 'return' and isinstance(w, Checked) and w.v is v))
            else:
                c.prove('%s: reading is stable' % name, z3.BoolVal(w is r))
                want = r is old if old is not None else (r is ElemScalar._DEFAULT if kind == 'scalar' else
                                                         isinstance(r, Comp) and r.state.name_ == 'default message')
                c.prove('%s: reads what was stored or the default' % name, z3.BoolVal(want))
        res.append(xform.verify(name, run, {}, ('return', 'ProphyError')))
    return res


# ------------------------------------------------------------------ enums

class Of(object):
    """The enumerator object made of a number."""

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'Of(%r)' % (self.v,)


class EnumClass(object):
    """An enum under construction: any number of enumerators, different names, numbers of 32 bits."""
    __name__ = 'E'

    def __init__(self, c):
        self.n = c.int('enumerators', 1)
        self.NM, self.NUM = z3.Function(c.fresh('name'), I, I), z3.Function(c.fresh('number'), I, I)
        NM, NUM, AT = self.NM, self.NUM, z3.Function(c.fresh('index of name'), I, I)
        xform.universal(lambda i: z3.And(AT(NM(i)) == i, NUM(i) >= 0, NUM(i) < 1 << 32))
        xform.instance(z3.IntVal(0))
        self._enumerators = SymSeq(self.n, lambda i: (sym.Name(NM(i)), SymInt(NUM(i))), 'enumerators')

    @staticmethod
    def _check(v):
        """Trusted here, proved for u32 (tag check): numbers of 32 bits are accepted."""
        return v

    def __call__(self, v):
        return Of(v)


def enum_values():
    G = prophy.generators.enum_generator
    build = world().fn(G.add_attributes)
    name = 'prophy enum'

    def setup(c):
        e = EnumClass(c)
        build(e)
        return e, getattr(e._check, '__func__', None)

    def run(c):
        e, check = setup(c)
        if check is None:
            raise Unsupported('the check of an enum is no class method')
        which = 'name' if c.choose('by name') else 'number' if c.choose('by number') else 'other'
        v = {'name': lambda: sym.Name(c.int('text')), 'number': lambda: SymInt(c.int('value')), 'other': Junk}[which]()
        key = {'name': e.NM, 'number': e.NUM}.get(which)
        known = key is not None and c.choose('known')
        k = c.int('k', 0)
        c.assume(k < e.n)
        xform.instance(k)
        if known:
            c.assume(key(k) == v.t)
        elif key is not None:
            xform.universal(lambda i: z3.Implies(z3.And(i >= 0, i < e.n), key(i) != v.t))
        how, r = attempt(c, lambda: check(e, v))
        c.prove('%s: raises nothing but ProphyError' % name, z3.BoolVal(how in ('return', 'ProphyError')))
        if how == 'return':
            c.prove('%s: only its enumerators are accepted, by name or number' % name, z3.BoolVal(known))
            if not isinstance(r, Of) or not isinstance(r.v, SymInt):
                c.prove('%s: an enumerator object is stored' % name, z3.BoolVal(False))
            elif which == 'number':
                c.prove('%s: the number assigned is stored' % name, r.v.t == v.t)
            elif which == 'name':
                c.prove('%s: the number of the name assigned is stored' % name, r.v.t == e.NUM(k))
        else:
            c.prove('%s: every enumerator is accepted, by name and number' % name, z3.BoolVal(not known))

    def default(c):
        e, _ = setup(c)
        c.outcome = 'return'
        d = e._DEFAULT
        c.prove('%s: the first enumerator is the default' % name,
                d.v.t == e.NUM(z3.IntVal(0)) if isinstance(d, Of) and isinstance(d.v, SymInt) else z3.BoolVal(False))
    return [xform.verify(name + ' values', run, {}, ('return', 'ProphyError')), xform.verify(name + ' default', default, {}, ('return',))]


# ------------------------------------------------------------------ composite arrays

class ElemComp(CompType):
    """Element type of a composite array."""

    def __init__(self):
        CompType.__init__(self, False)


class Source(Comp):
    """The i-th message of a sequence of messages."""

    def __init__(self, name, i, bad=None):
        Comp.__init__(self, Tok(name, SymInt(i)), bad)
        self.i = i_term(i)


def composite_arrays():
    res = [composite_extend(), composite_delete('int'), composite_delete('slice')]
    for K in (prophy.container.bound_composite_array, prophy.container.fixed_composite_array):
        res.append(composite_setitem(K))
    res += [composite_add(k) for k in ((), ('a',), ('arr',), ('a', 'arr'), ('a', 'b'))]
    return res


def composite_extend():
    K = prophy.container.bound_composite_array
    name = 'prophy.bound_composite_array.extend'

    def run(c):
        n, limit, count = c.int('len', 0), c.int('limit', 0), c.int('count', 0)
        c.assume(z3.Implies(limit > 0, n <= limit))
        if c.choose('some element is of another class'):
            w = c.int('w', 0)
            c.assume(w < count)
            bad = lambda i: i == w  # noqa: E731
            c.witnesses = [w]
        else:
            w, bad = None, lambda i: z3.BoolVal(False)  # noqa: E731
        seq = SymSeq(count, lambda i: Source('source', i, bad(i)), 'messages')
        arg = OneShot(seq) if c.choose('iterator') else seq
        a = make_array(K, ElemComp(), n, limit)
        lst = a._values

        def cands(lp):
            return [Cand('copies of the first k messages', lambda k: SymList(
                [('seg', SymSeq(count, lambda i: Comp(Tok('copy', Tok('source', SymInt(i))))), z3.IntVal(0), k)]))]
        xform.PLANS['bound_composite_array.extend'] = LoopPlan(
            cands, inv=(lambda lp, k: k <= w) if w is not None else None)
        how, e = attempt(c, lambda: a.extend(arg))
        over = z3.And(limit > 0, n + count > limit)
        if how == 'return':
            c.prove('%s: accepted only if the reference accepts' % name, z3.And(z3.Not(over), z3.BoolVal(w is None)))
            want_ops('%s: appends one independent copy of every message' % name, a._values,
                     [('extend', SymSeq(count, lambda i: Comp(Tok('copy', Tok('source', SymInt(i))))))])
            c.prove('%s: never above the limit' % name, z3.Implies(limit > 0, a._values.n <= limit))
            return
        c.prove('%s: refused only if the reference refuses' % name, z3.Or(over, z3.BoolVal(w is not None)))
        c.record('%s: raises ProphyError, or TypeError for another class' % name,
                 'proved' if how in ('ProphyError', 'TypeError') else 'refuted', how)
        c.record('%s: a rejected operation changes nothing' % name,
                 'proved' if a._values is lst and not lst.ops else 'refuted', repr(lst))
    plan = {'bound_composite_array.extend': LoopPlan()}
    return xform.verify(name, run, plan, ('return', 'ProphyError', 'TypeError'))


def composite_delete(what):
    K = prophy.container.bound_composite_array
    name = 'prophy.bound_composite_array: delete %s' % what

    def run(c):
        n, limit = c.int('len', 0), c.int('limit', 0)
        c.assume(z3.Implies(limit > 0, n <= limit))
        a = make_array(K, ElemComp(), n, limit)
        lst = a._values
        i = Slice(c) if what == 'slice' else SymInt(c.int('i'))

        def rm():
            del a[i]
        how, e = attempt(c, rm)
        if how == 'return':
            want_ops('%s: effect is the one of the plain list operation' % name, a._values,
                     [('delslice' if what == 'slice' else 'delitem', i)])
            return
        c.record('%s: raises list-style errors only' % name, 'proved' if how == 'IndexError' else 'refuted', how)
        c.record('%s: a rejected operation changes nothing' % name,
                 'proved' if a._values is lst and not lst.ops else 'refuted', repr(lst))
    return xform.verify(name, run, {}, ('return',))


def composite_setitem(K):
    name = 'prophy.%s: item and slice assignment' % K.__name__

    def run(c):
        n, limit = c.int('len', 0), c.int('limit', 0)
        a = make_array(K, ElemComp(), n, limit)
        lst = a._values
        i = Slice(c) if c.choose('slice') else SymInt(c.int('i'))

        def put():
            a[i] = Source('source', z3.IntVal(0))
        how, e = attempt(c, put)
        c.record('%s: refused with ProphyError' % name, 'proved' if how == 'ProphyError' else 'refuted', how)
        c.record('%s: nothing changes' % name, 'proved' if a._values is lst and not lst.ops else 'refuted', repr(lst))
    return xform.verify(name, run, {}, ('ProphyError',))


class Built(Comp):
    """An element under construction: scalar attributes are set, array attributes filled."""

    def __init__(self):
        Comp.__init__(self)
        self.set = []
        M = type('array', (world().classes[prophy.container.bound_scalar_array],),
                 {'_max_len': 0, '_TYPE': ElemScalar})
        self._arr = M.__new__(M)
        self._arr._values = RefList('element array', z3.IntVal(0))

    arr = property(lambda self: self._arr)

    def put(self, name, v):
        if cx().branch(v.bad):
            raise ProphyError('bad value')
        self.set.append((name, v))

    a = property(lambda self: Tok('value of a'), lambda self, v: self.put('a', v))
    b = property(lambda self: Tok('value of b'), lambda self, v: self.put('b', v))


def composite_add(keys):
    """add() is checked for up to two attributes."""
    K = prophy.container.bound_composite_array
    name = 'prophy.bound_composite_array.add(%s)' % ', '.join(keys)

    class T(object):
        def __call__(self):
            return Built()

    def run(c):
        n, limit = c.int('len', 0), c.int('limit', 0)
        c.assume(z3.Implies(limit > 0, n <= limit))
        a = make_array(K, T(), n, limit)
        lst = a._values
        vals = {'a': Val(z3.IntVal(1)), 'b': Val(z3.IntVal(2)), 'arr': fresh_values(c) if 'arr' in keys else None}
        how, e = attempt(c, lambda: a.add(**{k: vals[k] for k in keys}))
        refuse = [z3.And(limit > 0, n >= limit)]
        for k in keys:
            refuse.append(vals[k].refused if k == 'arr' else vals[k].bad)
        if how != 'return':
            c.record('%s: raises nothing but ProphyError' % name, 'proved' if how == 'ProphyError' else 'refuted', how)
            c.prove('%s: refused only if the reference refuses' % name, z3.Or(*refuse))
            c.record('%s: a rejected operation changes nothing' % name,
                     'proved' if a._values is lst and not lst.ops else 'refuted', repr(lst))
            return
        c.prove('%s: accepted only if the reference accepts' % name, z3.Not(z3.Or(*refuse)))
        ok = len(lst.ops) == 1 and lst.ops[0][0] == 'append' and lst.ops[0][1] is e and isinstance(e, Built)
        c.record('%s: appends the element it returns' % name, 'proved' if ok and a._values is lst else 'unknown', repr(lst))
        if ok:
            want = [(k, vals[k]) for k in keys if k != 'arr']
            c.record('%s: sets the given attributes' % name,
                     'proved' if sorted(map(repr, e.set)) == sorted(map(repr, want)) else 'refuted', repr(e.set))
            if 'arr' in keys:
                v = vals['arr']
                ops = e._arr._values.ops
                r = ops_same(ops, [('become', SymSeq(v.n, lambda i: Checked(Val(i + 100))))])
                c.record('%s: fills the array attribute' % name, 'proved' if r is True or
                         (r is not None and r is not False and c.entails(r)) else 'unknown', repr(ops))
    return xform.verify(name, run, {}, ('return', 'ProphyError'))


# ------------------------------------------------------------------ copying

class CopyLog(object):
    """In iteration k of the loop the k-th element of the target copies the k-th of the source, once."""

    def __init__(self):
        self.items, self.obj = [], self
        self.what = 'copied'

    def entry(self, lp):
        cx().record('%s: nothing is copied before the loop' % lp.key, 'unknown' if self.items else 'proved')

    def havoc(self, lp):
        self.items = []
        self.seen = True

    def close(self, lp):
        ok = len(self.items) == 1 and all(sym.is_same(SymInt(x), SymInt(lp.k)) for x in self.items[0])
        cx().record('%s: element k is copied to element k in iteration k' % lp.key, 'proved' if ok else 'unknown',
                    repr(self.items))


class Target(Source):
    log = None

    def on_copy(self, src):
        self.log.items.append((self.i, src.i))


class ElemList(RefList):
    """A list of messages."""

    def __init__(self, name, n, make):
        RefList.__init__(self, name, n)
        self.make = make

    def __getitem__(self, i):
        if self._whole(i):
            if self.ops:
                raise Unsupported('contents of a changed list')
            return SymSeq(self.n, self.make, self.name)
        return RefList.__getitem__(self, i)


def array_of(K, tp, values, dynamic, bound, limit):
    M = type('array', (world().classes[K],), {
        '_max_len': SymInt(limit), '_TYPE': tp, '_DYNAMIC': dynamic, '_BOUND': bound, '_SIZE': SymInt(cx().int('size', 0)),
        'sym_seq': lambda self: self._values[:], 'sym_list': lambda self: self._values[:]})
    a = M.__new__(M)
    a._values = values
    return a


def message(kind, opt, tp):
    M = type('Msg', (world().classes[prophy.composite.struct],), {'_mirror': True})
    add_property(kind, M, FieldOf('x', tp))
    m = M.__new__(M)
    m._fields = {'other': Tok('other field')}
    return m


def set_field():
    C = prophy.container
    res = []
    for opt in (False, True):
        name = 'prophy.composite.struct.set_field: %sscalar' % ('optional ' if opt else '')

        def run(c):
            m = message('scalar', opt, ScalarType(opt))
            before = snapshot(m)
            rhs = None if opt and c.choose('absent') else Checked(Val(z3.IntVal(1)))
            how, _ = attempt(c, lambda: m.set_field('x', rhs))
            c.prove('%s: succeeds' % name, z3.BoolVal(how == 'return'))
            c.prove('%s: the value is taken over' % name, z3.BoolVal(m.x is rhs))
            unchanged(c, '%s: no other field changes' % name, m, before, ('x',))
        res.append(xform.verify(name, run, {}, ('return',)))
        name2 = 'prophy.composite.struct.set_field: %scomposite' % ('optional ' if opt else '')

        def run2(c):
            m = message('composite', opt, CompType(opt))
            if c.choose('set before'):
                m._fields['x'] = Comp(Tok('old'))
            before = snapshot(m)
            rhs = Comp(Tok('source'))
            how, _ = attempt(c, lambda: m.set_field('x', rhs))
            c.prove('%s: succeeds' % name2, z3.BoolVal(how == 'return'))
            if how != 'return':
                return
            got = m.x
            ok = isinstance(got, Comp) and got is not rhs and sym.is_same(got.state, Tok('copy', Tok('source')))
            c.prove('%s: the field becomes an independent copy' % name2, z3.BoolVal(ok))
            c.prove('%s: the source is unchanged' % name2, z3.BoolVal(rhs.state.name_ == 'source'))
            unchanged(c, '%s: no other field changes' % name2, m, before, ('x',))
        res.append(xform.verify(name2, run2, {}, ('return',)))
    shapes = (('fixed', C.fixed_scalar_array, C.fixed_composite_array, False, None),
              ('limited', C.bound_scalar_array, C.bound_composite_array, False, 'n'),
              ('dynamic', C.bound_scalar_array, C.bound_composite_array, True, 'n'),
              ('greedy', C.bound_scalar_array, C.bound_composite_array, True, None))
    for shape, KS, KC, dyn, bound in shapes:
        res.append(set_scalar_array(shape, KS, dyn, bound))
        res.append(set_composite_array(shape, KC, dyn, bound))
    return res


def lengths(c, shape):
    limit = c.int('limit', 1) if shape in ('fixed', 'limited') else z3.IntVal(0) if c.choose('no limit') else c.int('cap', 1)
    n, m = c.int('target', 0), c.int('source', 0)
    if shape == 'fixed':
        c.assume(z3.And(n == limit, m == limit))
    else:
        c.assume(z3.Implies(limit > 0, z3.And(n <= limit, m <= limit)))
    return limit, n, m


class Stored(ElemScalar):
    @staticmethod
    def _check(v):
        if isinstance(v, Tok) and v.name_ == 'of source':
            return v            # stored values have been checked: checking is idempotent (tag check)
        return ElemScalar._check(v)


def set_scalar_array(shape, K, dyn, bound):
    name = 'prophy.composite.struct.set_field: %s scalar array' % shape

    def run(c):
        limit, n, k = lengths(c, shape)
        m = message('array', False, ArrayType())
        src = RefList('source', k)
        rhs = array_of(K, Stored, src, dyn, bound, limit)
        lhs = array_of(K, Stored, RefList('target', n), dyn, bound, limit)
        m._fields['x'] = lhs
        before = snapshot(m)
        how, e = attempt(c, lambda: m.set_field('x', rhs))
        c.prove('%s: succeeds' % name, z3.BoolVal(how == 'return'))
        if how != 'return':
            return
        now = m._fields['x']
        c.prove('%s: an array of its own' % name, z3.BoolVal(now is not rhs and now._values is not src))
        c.prove('%s: the source is unchanged' % name, z3.BoolVal(rhs._values is src and not src.ops))
        want_ops('%s: contents become those of the source' % name, now._values,
                 [('become', SymSeq(k, lambda i: Tok('of source', SymInt(i))))])
        unchanged(c, '%s: no other field changes' % name, m, before, ('x',))
    return xform.verify(name, run, {}, ('return',))


def set_composite_array(shape, K, dyn, bound):
    name = 'prophy.composite.struct.set_field: %s composite array' % shape

    def run(c):
        limit, n, k = lengths(c, shape)
        m = message('array', False, ArrayType())
        log = CopyLog()
        Target.log = log
        src = ElemList('source', k, lambda i: Source('source', i))
        dst = ElemList('target', n, lambda i: Target('target', i))
        tp = ElemComp()
        rhs = array_of(K, tp, src, dyn, bound, limit)
        lhs = array_of(K, tp, dst, dyn, bound, limit)
        m._fields['x'] = lhs
        before = snapshot(m)
        copies = SymSeq(k, lambda i: Comp(Tok('copy', Tok('source', SymInt(i)))))

        def cands(lp):
            return [Cand('copies of the first k messages', lambda j: SymList([('seg', copies, z3.IntVal(0), j)]))]
        xform.PLANS['bound_composite_array.extend'] = LoopPlan(cands)
        xform.PLANS['struct.set_field'] = LoopPlan(heap=lambda lp: [log])
        how, e = attempt(c, lambda: m.set_field('x', rhs))
        c.prove('%s: succeeds' % name, z3.BoolVal(how == 'return'))
        if how != 'return':
            return
        now = m._fields['x']
        c.prove('%s: an array of its own' % name, z3.BoolVal(now is not rhs and now._values is not src))
        c.prove('%s: the source is unchanged' % name, z3.BoolVal(rhs._values is src and not src.ops))
        if shape == 'fixed':
            ok = getattr(log, 'seen', False) and now is lhs and now._values is dst and not dst.ops
            c.record('%s: every element copies its counterpart' % name, 'proved' if ok else 'unknown', repr(dst))
            c.prove('%s: both have the same number of elements' % name, n == k)
        else:
            ops = now._values.ops
            if len(ops) == 2 and ops[0][0] == 'become':
                r = ops_same(ops, [('become', SymSeq(z3.IntVal(0), lambda i: None)), ('extend', copies)])
            else:
                r = ops_same(ops, [('become', copies)])
            c.record('%s: contents become independent copies of the source\'s' % name,
                     'proved' if r is True or (r not in (None, False) and c.entails(r)) else
                     'unknown' if r is None else 'refuted', repr(ops))
        unchanged(c, '%s: no other field changes' % name, m, before, ('x',))
    return xform.verify(name, run, {'bound_composite_array.extend': LoopPlan(), 'struct.set_field': LoopPlan()}, ('return',))


class ItemLog(CopyLog):
    def close(self, lp):
        ok = len(self.items) == 1 and sym.is_same(SymInt(self.items[0]), SymInt(lp.k))
        cx().record('%s: field k is copied in iteration k, exactly once' % lp.key, 'proved' if ok else 'unknown',
                    repr(self.items))


class SourceFields(object):
    """_fields of the source: any number of names with values; read only."""

    def __init__(self, c):
        self.n = c.int('fields', 0)
        self.ord = 0

    def items(self):
        return SymSeq(self.n, lambda i: (Tok('name', SymInt(i)), Tok('value', SymInt(i))), 'items')

    def sym_seq(self):
        return SymSeq(self.n, lambda i: Tok('name', SymInt(i)), 'names')

    def __getitem__(self, k):
        if isinstance(k, Tok) and k.name_ == 'name':
            return Tok('value', k.args_[0])
        raise Unsupported('field lookup')


def copy_struct():
    name = 'prophy.composite.struct.copy_from'
    log = ItemLog()

    def run(c):
        log.items, log.seen = [], False

        def set_field(self, n, rhs):
            if 'old' in self._fields:
                c.record('%s: the target is cleared before fields are copied' % name, 'refuted', repr(self._fields))
            ok = isinstance(n, Tok) and isinstance(rhs, Tok) and n.name_ == 'name' and rhs.name_ == 'value' and \
                sym.is_same(n.args_[0], rhs.args_[0])
            if not ok:
                raise Unsupported('set_field of something else')
            log.items.append(i_term(n.args_[0]))
        M = type('Msg', (world().classes[prophy.composite.struct],), {'set_field': set_field})
        a, b = M.__new__(M), M.__new__(M)
        a._fields = SourceFields(c)
        b._fields = {'old': Tok('old')}
        xform.PLANS['struct._copy_implementation'] = LoopPlan(heap=lambda lp: [log])
        src = a._fields
        how, e = attempt(c, lambda: b.copy_from(a))
        c.prove('%s: succeeds' % name, z3.BoolVal(how == 'return'))
        c.prove('%s: the source keeps its fields' % name, z3.BoolVal(a._fields is src))
        c.prove('%s: nothing of the old contents is left' % name, z3.BoolVal('old' not in b._fields))
        c.record('%s: every field of the source is copied' % name, 'proved' if log.seen else 'unknown',
                 'no loop over the fields was recognised')

    def self_copy(c):
        M = type('Msg', (world().classes[prophy.composite.struct],), {})
        b = M.__new__(M)
        b._fields = {'old': Tok('old')}
        before = snapshot(b)
        how, e = attempt(c, lambda: b.copy_from(b))
        c.prove('%s: copying from itself succeeds' % name, z3.BoolVal(how == 'return'))
        unchanged(c, '%s: copying from itself changes nothing' % name, b, before)

    def wrong(c):
        M = type('Msg', (world().classes[prophy.composite.struct],), {})
        b = M.__new__(M)
        b._fields = {'old': Tok('old')}
        before = snapshot(b)
        how = 'return'
        try:
            b.copy_from(Junk())
        except TypeError:
            how = 'TypeError'
        c.outcome = how
        c.prove('%s: another class is refused with TypeError' % name, z3.BoolVal(how == 'TypeError'))
        unchanged(c, '%s: a refused copy changes nothing' % name, b, before)
    return [xform.verify(name, run, {'struct._copy_implementation': LoopPlan()}, ('return',)),
            xform.verify(name + ' of itself', self_copy, {}, ('return',)),
            xform.verify(name + ' of another class', wrong, {}, ('TypeError',))]


def copy_union():
    res = []
    for kind in ('scalar', 'composite'):
        name = 'prophy.composite.union.copy_from: %s arm' % kind

        def run(c):
            M = type('Msg', (world().classes[prophy.composite.union],), {})
            tp = {'scalar': ScalarType, 'composite': CompType}[kind](False)
            f, g = FieldOf('x', tp), FieldOf('y', tp)
            add_property('union ' + kind, M, f)
            add_property('union ' + kind, M, g)
            a, b = M.__new__(M), M.__new__(M)
            a._discriminated, a._fields = f, {}
            if c.choose('source set'):
                a._fields['x'] = Checked(Val(z3.IntVal(1), z3.BoolVal(False))) if kind == 'scalar' else Comp(Tok('source'))
            b._discriminated, b._fields = (f if c.choose('same arm') else g), {}
            if c.choose('target set'):
                b._fields[b._discriminated.name] = Checked(Val(z3.IntVal(2))) if kind == 'scalar' else Comp(Tok('old'))
            want = a.x
            before = snapshot(a)
            how, e = attempt(c, lambda: b.copy_from(a))
            c.prove('%s: succeeds' % name, z3.BoolVal(how == 'return'))
            if how != 'return':
                return
            c.prove('%s: the arm of the source is selected' % name, z3.BoolVal(b._discriminated is f))
            c.prove('%s: only that arm is set' % name, z3.BoolVal(set(b._fields) <= {'x'}))
            unchanged(c, '%s: the source is unchanged' % name, a, before)
            c.prove('%s: the source keeps its arm' % name, z3.BoolVal(a._discriminated is f))
            c.prove('%s: fields are not shared' % name, z3.BoolVal(a._fields is not b._fields))
            how, got = attempt(c, lambda: b.x)
            if kind == 'scalar':
                c.prove('%s: the value is taken over' % name, z3.BoolVal(got is want))
            else:
                ok = isinstance(got, Comp) and got is not want and sym.is_same(got.state, Tok('copy', want.state))
                c.prove('%s: the arm becomes an independent copy' % name, z3.BoolVal(ok))
        res.append(xform.verify(name, run, {}, ('return',)))
    return res


# ------------------------------------------------------------------ limits of counted arrays

def sizer_limits():
    """substitute_len_field: an array never outgrows what its counter can hold."""
    name = 'prophy.generators.struct_generator.substitute_len_field'
    f = world().fn(prophy.generators.struct_generator.substitute_len_field)
    res = []
    for st in ('u8', 'u16', 'u32', 'u64'):
        T = getattr(prophy.scalar, st)

        def run(c):
            limit, shift = c.int('limit', 0), c.int('shift', 0)
            c.assume(shift <= T._MAX)

            class A(object):
                _max_len = SymInt(limit)
                _BOUND_SHIFT = SymInt(shift)
                _BOUND = 'n'

            class Sizer(object):
                name = 'n'
                type = T

                def evaluate_codecs(self):
                    pass
            arr = FieldOf('x', A)

            class Cls(object):
                n = 0
                _descriptor = [Sizer(), arr]

                @staticmethod
                def validate_and_fix_sizer_name(item):
                    return 'n'

                @staticmethod
                def validate_sizer_type(*_):
                    pass

                @staticmethod
                def validate_bound_shift(*_):
                    pass
            how, _ = attempt(c, lambda: f(Cls, arr))
            c.prove('%s (%s): succeeds' % (name, st), z3.BoolVal(how == 'return'))
            v = i_term(A._max_len)
            cap = T._MAX - shift
            c.prove('%s (%s): the limit fits the counter' % (name, st), v <= cap)
            c.prove('%s (%s): the declared limit is kept' % (name, st),
                    z3.Implies(z3.And(limit > 0, limit <= cap), v == limit))
            c.prove('%s (%s): no other limit is introduced' % (name, st),
                    z3.Implies(z3.Or(limit == 0, limit > cap), v == cap))
            c.prove('%s (%s): the counter cannot be assigned' % (name, st), z3.BoolVal(not hasattr(Cls, 'n')))
        res.append(xform.verify('%s %s' % (name, st), run, {}, ('return',)))
    return res
