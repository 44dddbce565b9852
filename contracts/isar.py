"""Contracts on prophyc/parsers/isar.py (C17, and the designed failures of C13): the elements of the xml are read into the same
members, types and numbers that the prophy parser makes of the corresponding text (contracts/rules.py), for any attribute texts,
any of which may be absent, and any number of child elements."""
import inspect

import z3

from contracts.base import B, I, SimError, Unsupported, cx, sym, xform
from engine.sym import ISNUM, NUM, S, SymInt, SymList, SymSeq, Text, Tok, UPPER, LOWER
from engine.xform import Cand, LoopPlan

import prophyc.model as M  # noqa: E402
import prophyc.parsers.isar as IS  # noqa: E402

EXP, PAREN = z3.Function('expand_operators', S, S), z3.Function('parenthesize', S, S)


class Elem(object):
    """An element with any attributes, as functions of its number."""

    def __init__(self, tag, number=None, children=None, dimension=None):
        self.tag, self.number, self.children, self.dimension = tag, z3.IntVal(0) if number is None else z3.simplify(number), children, dimension

    def has(self, a):
        return z3.Function('%s has %s' % (self.tag, a), I, B)(self.number)

    def text(self, a):
        return z3.Function('%s of %s' % (a, self.tag), I, S)(self.number)

    def given(self, a):
        """Present and not empty."""
        return z3.And(self.has(a), z3.Length(self.text(a)) > 0)

    def get(self, a, default=None):
        return Text(self.text(a)) if cx().branch(self.has(a)) else default

    @property
    def attrib(self):
        return Attrib(self)

    def find(self, what):
        if what != 'dimension' or self.dimension is None:
            raise Unsupported('find(%r)' % (what,))
        there, d = self.dimension
        return d if cx().branch(there) else None

    def sym_len(self):
        return SymInt(self.children.n)

    def sym_seq(self):
        if self.children is None:
            raise Unsupported('children of <%s>' % self.tag)
        return self.children

    def sym_eq(self, o):
        return self.number == o.number if isinstance(o, Elem) and o.tag == self.tag else False


class Attrib(object):
    def __init__(self, elem):
        self.elem = elem

    def __contains__(self, a):
        return cx().branch(self.elem.has(a))

    def get(self, a, default=None):
        return self.elem.get(a, default)

    def __getitem__(self, a):
        if a not in self:
            raise SimError('KeyError')
        return Text(self.elem.text(a))


class Types(dict):
    """A table of texts, looked up with any text."""

    def get(self, k, default=None):
        if not isinstance(k, Text):
            return dict.get(self, k, default)
        for x in self:
            if cx().branch(k.s == z3.StringVal(x)):
                return self[x]
        return default

    def __contains__(self, k):
        return dict.__contains__(self, k) if not isinstance(k, Text) else self.get(k) is not None

    def __getitem__(self, k):
        if isinstance(k, Text):
            r = self.get(k)
            if r is None:
                raise SimError('KeyError')
            return r
        return dict.__getitem__(self, k)


def made(cls):
    """Records the arguments the constructor was given, under its own parameter names."""
    sig = inspect.signature(cls.__init__)

    class Made(object):
        _mirror_of = cls

        def __init__(self, *a, **kw):
            b = sig.bind(self, *a, **kw)
            b.apply_defaults()
            for k, v in list(b.arguments.items())[1:]:
                setattr(self, k, v)

        def sym_isinstance(self, cs):
            return any(issubclass(cls, getattr(k, '_mirror_of', k)) for k in cs)

        def sym_eq(self, o):
            if not isinstance(o, Made):
                return False
            return sym.args_same(tuple(self.__dict__[k] for k in sorted(self.__dict__) if k != 'docstring'),
                                 tuple(o.__dict__[k] for k in sorted(o.__dict__) if k != 'docstring'))

        def __repr__(self):
            return '%s(%s)' % (cls.__name__, ', '.join('%s=%r' % (k, v) for k, v in self.__dict__.items() if k != 'docstring'))
    return Made


CLASSES = {c: made(c) for c in (M.StructMember, M.UnionMember, M.EnumMember, M.Struct, M.Union, M.Enum, M.Typedef, M.Constant)}


def expand(x):
    t = Text.of(x)
    if t is None:
        raise Unsupported('expand_operators(%r)' % (x,))
    cx().assume(z3.Implies(ISNUM(t), EXP(t) == t))
    return Text(EXP(t))


def paren(x):
    t = Text.of(x)
    if t is None:
        raise Unsupported('parenthesize(%r)' % (x,))
    return Text(PAREN(t))


def docstr(elem):
    return Tok('docstring')


def world(*more):
    over = [(IS.expand_operators, expand), (IS.parenthesize, paren), (IS.get_docstr, docstr), (IS.primitive_types, Types(IS.primitive_types))]
    W = xform.World(None, over + list(CLASSES.items()) + list(more))
    return W


def begin(c):
    """Facts of expand_operators the contracts use, both evaluated on the real function by `helpers`."""
    c.texts = True
    c.assume(EXP(z3.StringVal('')) == z3.StringVal(''))


def outcome(c, fname, f, *a):
    try:
        r = 'done', f(*a)
    except Unsupported:
        raise
    except SimError as e:
        r = 'error', e
    except IS.IsarError as e:
        r = 'designed', e
    except Exception as e:
        raise Unsupported('raises %r' % e)
    c.record('%s: fails only by a designed exception' % fname, 'refuted' if r[0] == 'error' else 'proved', repr(r[1])[:300])
    c.outcome = r[0]
    return r


def opt(t):
    """A text, or None where it is empty or absent."""
    return None if t is None else Text(t)


def check(c, fname, got, want):
    """got has exactly the wanted arguments, but for the docstring."""
    if type(got) is not type(want):
        c.record('%s: a %s' % (fname, want._mirror_of.__name__), 'refuted', repr(got))
        return
    for k, v in sorted(want.__dict__.items()):
        if k != 'docstring':
            sym.same('%s: %s' % (fname, k), getattr(got, k), v)


def members():
    """make_struct_members: every form of <dimension>."""
    return member(False)


def dimensions(message, optional):
    return member(True, message, optional)


def member(dimension, dyn=False, wanted=None):
    fname = 'prophyc.parsers.isar.make_struct_members'
    f = world().fn(IS.make_struct_members)
    Mb = CLASSES[M.StructMember]

    def run(c):
        begin(c)
        d = Elem('dimension')
        there = z3.Bool('has a dimension')
        e = Elem('member', dimension=(there, d))
        size, size2, var = d.text('size'), d.text('size2'), d.text('variableSizeFieldName')
        # a second extent comes with a first one
        has1, has2 = (z3.And(d.has(a), z3.Length(EXP(d.text(a))) > 0) for a in ('size', 'size2'))
        c.assume(z3.Implies(has2, has1))
        optional = z3.And(e.has('optional'), LOWER(e.text('optional')) == z3.StringVal('true'), z3.Length(e.text('optional')) > 0)
        c.assume(there == dimension)
        if dimension:
            c.assume(z3.And(e.given('name'), e.given('type'), {
                'absent': z3.Not(e.has('optional')), 'false': z3.And(e.has('optional'), z3.Not(optional)), 'true': optional}[wanted]))
        how, r = outcome(c, fname, f, e, dyn)
        nm, ty = e.text('name'), e.text('type')
        ok = z3.And(e.given('name'), e.given('type'))
        c.prove('%s: fails exactly without a name or a type' % fname, ok if how == 'done' else z3.Not(ok))
        if how != 'done':
            return
        ms = list(r)
        if not c.branch(there):
            want = [Mb(Text(nm), Text(ty), optional=c.branch(optional))]
        else:
            ext = None
            if c.branch(has1):
                ext = z3.Concat(PAREN(EXP(size)), z3.StringVal('*'), PAREN(EXP(size2))) if c.branch(has2) else EXP(size)
            want = []
            if c.branch(optional):
                want.append(Mb(Text(z3.Concat(z3.StringVal('has_'), nm)), 'u32'))
            marker = z3.StringVal('THIS_IS_VARIABLE_SIZE_ARRAY')
            if c.branch(z3.And(d.has('variableSizeFieldName'), z3.PrefixOf(z3.StringVal('@'), var))):
                want.append(Mb(Text(nm), Text(ty), bound=Text(z3.SubString(var, 1, z3.Length(var) - 1))))
            elif ext is not None and c.branch(z3.Contains(ext, marker)):
                cap = z3.Concat(z3.StringVal('numOf'), UPPER(z3.SubString(nm, 0, 1)), z3.SubString(nm, 1, z3.Length(nm) - 1))
                want.append(Mb(Text(nm), Text(ty), bound=Text(cap)))
            elif c.branch(d.has('isVariableSize')):
                st = Text(d.text('variableSizeFieldType')) if c.branch(d.has('variableSizeFieldType')) else 'u32'
                sn = Text(var) if c.branch(d.has('variableSizeFieldName')) else Text(z3.Concat(nm, z3.StringVal('_len')))
                want += [Mb(sn, st), Mb(Text(nm), Text(ty), bound=sn, size=None if dyn else opt(ext))]
            else:
                want.append(Mb(Text(nm), Text(ty), size=opt(ext)))
        c.record('%s: number of members' % fname, 'proved' if len(ms) == len(want) else 'refuted', repr((ms, want)))
        for g, w in zip(ms, want):
            check(c, fname, g, w)
    return xform.verify(fname, run, {}, ('done',) if dimension else ('done', 'designed'), 3000)


def simple():
    """Constants and typedefs."""
    res = []
    W = world()

    def constant(c, fname='prophyc.parsers.isar.make_constant', f=W.fn(IS.make_constant)):
        begin(c)
        e = Elem('constant')
        how, r = outcome(c, fname, f, e)
        ok = z3.And(e.given('name'), e.given('value'))
        c.prove('%s: fails exactly without a name or a value' % fname, ok if how == 'done' else z3.Not(ok))
        if how == 'done':
            check(c, fname, r, CLASSES[M.Constant](Text(e.text('name')), Text(EXP(e.text('value')))))
    res.append(xform.verify('prophyc.parsers.isar.make_constant', constant, {}, ('done', 'designed')))

    def typedef(c, fname='prophyc.parsers.isar.make_typedef', f=W.fn(IS.make_typedef)):
        begin(c)
        e = Elem('typedef')
        how, r = outcome(c, fname, f, e)
        prim, ty = e.text('primitiveType'), e.text('type')
        known = [(z3.StringVal(k), v) for k, v in PRIMITIVES.items()]
        builtin = z3.And(e.has('name'), z3.Or(*[e.text('name') == z3.StringVal(v) for v in PRIMITIVES.values()]))
        want = None
        if c.branch(e.has('type')):
            fine = z3.And(e.given('type'), e.given('name'))
            want = Text(ty)
        elif c.branch(z3.And(e.has('primitiveType'), z3.Not(builtin))):
            fine = z3.And(e.given('name'), z3.Or(*[prim == k for k, _ in known]))
            if how == 'done':
                for k, v in known:
                    if c.branch(prim == k):
                        want = v
        else:
            fine = z3.BoolVal(True)
        c.prove('%s: fails exactly on missing or unknown names' % fname, fine if how == 'done' else z3.Not(fine))
        if how != 'done':
            return
        if want is None:
            c.record('%s: nothing to define' % fname, 'proved' if r is None else 'refuted', repr(r))
        else:
            check(c, fname, r, CLASSES[M.Typedef](Text(e.text('name')), want))
    res.append(xform.verify('prophyc.parsers.isar.make_typedef', typedef, {}, ('done', 'designed')))
    return res


PRIMITIVES = dict([('%d bit integer %s' % (n, w), w[0].replace('s', 'i') + str(n)) for n in (8, 16, 32, 64) for w in ('unsigned', 'signed')] +
                  [('32 bit float', 'r32'), ('64 bit float', 'r64')])


class Values(object):
    """A set of texts of which nothing is known."""

    def __contains__(self, x):
        return bool(cx().choose('seen before'))

    def add(self, x):
        pass

    # as a part of the heap a loop changes: nothing is known of it, before or after
    obj = property(lambda self: self)

    def entry(self, lp):
        pass

    havoc = close = entry


def listed(tag, cls, fname, f, spec, needed, list_name=None, extra=()):
    """A definition with one member per child element, in their order."""
    def run(c):
        begin(c)
        c.make_set = lambda *a: Values()
        n = c.int('children', 0)
        kids = SymSeq(n, lambda k: Elem(tag + ' member', k), 'children')
        e = Elem(tag, children=kids)
        seq = SymSeq(n, lambda k: spec(Elem(tag + ' member', k)), 'members')
        plan.cands = lambda lp: [Cand('one member per child so far', lambda k: SymList([('seg', seq, z3.IntVal(0), k)]))]
        how, r = outcome(c, fname, f, e)
        if how == 'done':
            if not c.branch(n > 0):
                c.record('%s: nothing is made of an empty element' % fname, 'proved' if r is None else 'refuted', repr(r))
                return
            c.prove('%s: it has a name' % fname, e.given('name'))
            if not isinstance(r, CLASSES[cls]):
                c.record('%s: a definition' % fname, 'refuted', repr(r))
                return
            sym.same('%s: its name' % fname, r.name, Text(e.text('name')))
            got = r.members
            if not isinstance(got, SymList):
                raise Unsupported('members %r' % (got,))
            c.prove('%s: as many members as children' % fname, got.length() == n)
            q = c.int('any child', 0)
            c.assume(q < n)
            sym.same('%s: the member of each child' % fname, got.seq().elem(q), seq.elem(q))
    plan = LoopPlan()
    plan.search = True
    plan.heap = lambda lp: [v for v in lp.env.values() if isinstance(v, Values)]
    return xform.verify(fname, run, {'*': plan}, ('done', 'designed'))


def unions():
    fname = 'prophyc.parsers.isar.make_union'

    def spec(e):
        return CLASSES[M.UnionMember](Text(e.text('name')), Text(e.text('type')), Text(EXP(e.text('discriminatorValue'))))
    return listed('union', M.Union, fname, world().fn(IS.make_union), spec, ('name', 'type', 'discriminatorValue'))


def enums():
    fname = 'prophyc.parsers.isar.make_enum'

    class Value(Text):
        """The text of an enumerator's value: a number modulo 2 ** 32, or an expression."""

        def sym_eq(self, o):
            t = Text.of(o)
            if t is None:
                return False
            if isinstance(o, Value):
                return z3.simplify(self.s == t)
            return z3.If(ISNUM(self.s), z3.And(ISNUM(t), NUM(t) == z3.If(NUM(self.s) < 0, NUM(self.s) + 2 ** 32, NUM(self.s))), t == EXP(self.s))

    def spec(e):
        v = e.text('value')
        cx().assume(z3.Implies(ISNUM(v), z3.And(EXP(v) == v, NUM(v) >= -2 ** 32)))
        return CLASSES[M.EnumMember](Text(e.text('name')), Value(v))
    return listed('enum', M.Enum, fname, world().fn(IS.make_enum), spec, ('name', 'value'))


def structs(message):
    """make_struct: the members made of each child, one child after the other."""
    fname = 'prophyc.parsers.isar.make_struct'

    def run(c):
        begin(c)
        n = c.int('children', 0)
        kids = SymSeq(n, lambda k: Elem('struct member', k), 'children')
        e = Elem('struct', children=kids)
        off = z3.Function('members of the children before', I, I)
        c.assume(off(0) == 0)

        def count(k):
            c.assume(z3.And(off(k) >= 0, off(k + 1) >= off(k)))
            return off(k + 1) - off(k)
        seq = SymSeq(off(n), lambda q: Tok('member', SymInt(q)), 'members')

        def of_child(m, *a):
            flag = bool(a[0]) if a else False
            c.record('%s: asks for the members of a message exactly in a message' % fname, 'proved' if flag == message else 'refuted', repr(a))
            k = m.number
            return SymList([('seg', seq, off(k), count(k) + off(k))])
        c.of_child = of_child

        def cands(lp):
            outer = [x for x in c.loops.values() if x is not lp and x.open]
            if lp.index == 1 or not outer:
                return [Cand('the members of the children so far', lambda k: SymList([('seg', seq, z3.IntVal(0), off(k))]))]
            k0 = outer[-1].k
            return [Cand('and of this child so far', lambda j: SymList([('seg', seq, z3.IntVal(0), off(k0) + j)]))]
        plan.cands = cands
        how, r = outcome(c, fname, f, e, message)
        if how != 'done':
            return
        if not c.branch(n > 0):
            c.record('%s: nothing is made of an empty element' % fname, 'proved' if r is None else 'refuted', repr(r))
            return
        c.prove('%s: it has a name' % fname, e.given('name'))
        if not isinstance(r, CLASSES[M.Struct]):
            c.record('%s: a struct' % fname, 'refuted', repr(r))
            return
        sym.same('%s: its name' % fname, r.name, Text(e.text('name')))
        got = r.members
        if not isinstance(got, SymList):
            raise Unsupported('members %r' % (got,))
        c.assume(off(n) >= 0)
        c.prove('%s: as many members as the children make' % fname, got.length() == off(n))
        q = c.int('any member', 0)
        c.assume(q < off(n))
        sym.same('%s: the members in the order of the children' % fname, got.seq().elem(q), seq.elem(q))
    f = world((IS.make_struct_members, lambda m, *a, **kw: cx().of_child(m, *(a + tuple(kw.values()))))).fn(IS.make_struct)
    plan = LoopPlan()
    plan.search = True
    return xform.verify(fname, run, {'*': plan}, ('done', 'designed'))


def struct():
    return [structs(False), structs(True)]
