"""Contracts on the composability rules of prophyc/parsers/prophy.py (C12): a definition that breaks a rule is reported, whatever
its number of members.  Errors are collected and raised at the end of parsing (contract `errors_reject`), so a path that reports
one is a rejection."""
import z3

from contracts.base import B, I, Unsupported, cx, i_term, sym, xform
from contracts.expr import Lexer, Prod
from engine.sym import Name, PathEnd, SymBool, SymInt, SymList, SymSeq, Tok
from engine.xform import LoopPlan

import prophyc.model as M  # noqa: E402
import prophyc.parsers.prophy as PP  # noqa: E402


class Errors(object):
    def append(self, e):
        cx().outcome = 'rejected'
        raise PathEnd('rejected')

    def __bool__(self):
        return False


class UnionStub(object):
    _mirror_of = M.Union

    def __init__(self, name, members, docstring=None):
        self.name, self.members = name, members


class StructStub(object):
    _mirror_of = M.Struct

    def __init__(self, name, members, docstring=None):
        self.name, self.members = name, members


def world():
    W = xform.World(None, [(M.Struct, StructStub), (M.Union, UnionStub)])
    W.declare(PP.Parser)
    return W


class Decls(object):
    """Declared names: some, unknown which."""

    def __init__(self, name):
        self.has, self.writes = z3.Function(name, I, B), []

    def __contains__(self, k):
        return cx().branch(self.has(Name.of(k)))

    def get(self, k, d=None):
        return Tok('declared', SymInt(Name.of(k))) if k in self else d

    def __getitem__(self, k):
        if k not in self:
            raise sym.SimError('KeyError')
        return Tok('declared', SymInt(Name.of(k)))

    def __setitem__(self, k, v):
        self.writes.append((k, v))


def parser(W):
    p = object.__new__(W.classes[PP.Parser])
    p.nodes, p.errors, p.typedecls, p.constdecls = SymList(), Errors(), Decls('type'), Decls('const')
    p.lexer, p.parse_error_prefix = Lexer(), 'f'
    return p


class Env(object):
    def __init__(self, c, W, arms=False):
        F = z3.Function
        self.W, self.arms = W, arms
        self.n = c.int('members', 1)
        self.nm, self.bnd, self.kd, self.tn, self.dv = (F(x, I, I) for x in ('name', 'bound', 'kind', 'type', 'discriminator'))
        self.hb, self.hs, self.gr, self.op, self.intlike = (F(x, I, B) for x in ('bounded', 'sized', 'greedy', 'optional', 'intlike'))
        self.seq = SymSeq(self.n, lambda i: (Mb(self, i), 1, 0), 'members')


class Mb(object):
    docstring = None

    def __init__(self, env, i):
        self.env, self.i = env, z3.simplify(i)
        e, i = env, self.i
        cx().assume(z3.And(e.kd(i) >= 0, e.kd(i) <= 2, e.nm(i) >= 0, e.bnd(i) >= 0, e.tn(i) >= 0, e.dv(i) >= 0))
        # what StructMember's constructor admits: at most one of array with a size or counter, greedy, optional
        cx().assume(z3.And(z3.Not(z3.And(e.gr(i), e.op(i))), z3.Implies(z3.Or(e.hb(i), e.hs(i)), z3.Not(z3.Or(e.gr(i), e.op(i))))))

    def cls(self):
        return M.UnionMember if self.env.arms else M.StructMember

    def sym_isinstance(self, cs):
        return any(issubclass(self.cls(), getattr(k, '_mirror_of', k)) for k in cs)

    def __getattr__(self, a):
        e, i = self.env, self.i
        if a == 'name':
            return Name(e.nm(i))
        if a == 'type_name':
            return Name(e.tn(i))
        if a == 'kind':
            return SymInt(e.kd(i))
        if a == 'discriminator' and e.arms:
            return Name(e.dv(i))
        if not e.arms:
            if a == 'bound':
                return Name(e.bnd(i)) if cx().branch(e.hb(i)) else None
            if a == 'size':
                return Name(z3.IntVal(7)) if cx().branch(e.hs(i)) else None
            if a in ('greedy', 'optional'):
                return SymBool((e.gr if a == 'greedy' else e.op)(i))
        p = getattr(self.cls(), a, None)
        if isinstance(p, property):
            return e.W.fn(p.fget)(self)
        raise Unsupported('attribute %s of a member' % a)

    def sym_eq(self, o):
        return self.i == o.i if isinstance(o, Mb) else False


def plan():
    p = LoopPlan()
    p.search = True
    return p


def accepted(fname, c, f, *a):
    try:
        r = f(*a)
    except Unsupported:
        raise
    except sym.SimError as e:
        c.record('%s: raises nothing' % fname, 'refuted', repr(e))
        raise PathEnd('escaped')
    except Exception as e:
        if type(e) is M.ModelError:
            c.outcome = 'rejected'
            raise PathEnd('rejected')
        raise Unsupported('raises %r' % e)
    c.outcome = 'accepted'
    c.record('%s: raises nothing' % fname, 'proved')
    return r


def struct_rules(env, c, fname):
    """No rule is broken, on a path without an error."""
    n = env.n
    q, p = c.int('any member', 0), c.int('an earlier member', 0)
    c.assume(z3.And(q < n, p < q))
    qm = c.int('member', 0)
    c.assume(qm < n)
    for i in (q, p, qm):
        Mb(env, i)

    def rule(what, f):
        c.prove('%s: %s' % (fname, what), f)
    rule('field names differ', env.nm(p) != env.nm(q))
    rule('a greedy array or an unlimited type only at the end', z3.Implies(qm < n - 1, z3.And(z3.Not(env.gr(qm)), env.kd(qm) != 2)))
    rule('no optional of a dynamic or unlimited type', z3.Implies(env.op(qm), env.kd(qm) == 0))
    rule('no fixed or limited array of a dynamic or unlimited type', z3.Implies(env.hs(qm), env.kd(qm) == 0))
    rule('no array of an unlimited type', z3.Implies(z3.Or(env.hb(qm), env.hs(qm), env.gr(qm)), env.kd(qm) != 2))
    # the member (unique by the first rule) that a counter names
    s = z3.Int('s?')
    good = z3.And(env.intlike(env.tn(s)), z3.Not(env.hb(s)), z3.Not(env.hs(s)), z3.Not(env.gr(s)), z3.Not(env.op(s)))
    rule('a counter is a plain integer field before its array', z3.Implies(
        env.hb(qm), z3.Exists([s], z3.And(s >= 0, s < qm, env.nm(s) == env.bnd(qm), good))))


def struct_members():
    W = world()
    fname = 'prophyc.parsers.prophy.Parser._validate_struct_members'
    f = W.fn(PP.Parser._validate_struct_members)

    def run(c):
        c.grow_sets, c.branch_ms = True, 300
        env = Env(c, W)
        me = parser(W)
        me._is_type_sizer_compatible = lambda t: SymBool(env.intlike(t.t))
        accepted(fname, c, f, me, SymList([('seg', env.seq, z3.IntVal(0), env.n)]))
        struct_rules(env, c, fname)
    return xform.verify(fname, run, {'*': plan()}, ('accepted', 'rejected'))


INTS = [t + w for t in 'ui' for w in ('8', '16', '32', '64')]


def sizer_types():
    """Parser._is_type_sizer_compatible: the built-in integers and the typedefs of what is compatible (recursive calls by contract)."""
    W = world()
    fname = 'prophyc.parsers.prophy.Parser._is_type_sizer_compatible'
    f = W.fn(PP.Parser._is_type_sizer_compatible)
    kinds = [M.Typedef, M.Enum, M.Struct, M.Union]

    def run(c):
        t = c.int('type')
        asked = []
        target, ok = Name(c.int('its type')), z3.Function('compatible', I, B)
        k = next((x for x in kinds if c.choose('declared as %s' % x.__name__)), None)

        class Node(object):
            name, type_name, definition, docstring = Name(t), target, None, None

            def sym_isinstance(self, cs):
                return any(issubclass(k, getattr(x, '_mirror_of', x)) for x in cs)

        class Types(Decls):
            def __contains__(self, x):
                if cx().branch(Name.of(x) == t):
                    return k is not None
                raise Unsupported('another type')

            def get(self, x, d=None):
                return Node() if x in self else d

            def __getitem__(self, x):
                if x not in self:
                    raise sym.SimError('KeyError')
                return Node()
        me = parser(W)
        me.typedecls = Types('type')

        def again(x):
            asked.append(x)
            return SymBool(ok(Name.of(x)))
        me._is_type_sizer_compatible = again
        builtin = z3.Or(*[t == Name.of(x) for x in INTS])
        if k is not None:
            c.assume(z3.Not(builtin))
        r = accepted(fname, c, f, me, Name(t))
        got = r.t if isinstance(r, SymBool) else z3.BoolVal(bool(r)) if isinstance(r, (bool, type(None))) else None
        if got is None:
            raise Unsupported('result %r' % (r,))
        if k is M.Typedef:
            if not asked:
                raise Unsupported('typedefs are followed elsewhere')
            c.prove('%s: a typedef of what is compatible' % fname, z3.Implies(got, ok(target.t)))
        elif k is None:
            c.prove('%s: a built-in integer' % fname, z3.Implies(got, builtin))
        else:
            c.prove('%s: no %s' % (fname, k.__name__), z3.Not(got))
        c.outcome = 'decided'
    return xform.verify(fname, run, {'*': plan()}, ('decided',))


def struct_def():
    W = world()
    fname = 'prophyc.parsers.prophy.Parser.p_struct_def'

    def run(c):
        c.grow_sets, c.branch_ms = True, 300
        env = Env(c, W)
        me = parser(W)
        me._is_type_sizer_compatible = lambda t: SymBool(env.intlike(t.t))
        called = []

        def validate(members):
            if not isinstance(members, SymList):
                raise Unsupported('members')
            called.append(members)
            sym.same('%s: all members are validated' % fname, members, SymList([('seg', env.seq, z3.IntVal(0), env.n)]), 'inv')
        me._validate_struct_members = validate
        nm = Name(c.int('struct', 0))
        accepted(fname, c, me.p_struct_def, Prod('struct', nm, SymList([('seg', env.seq, z3.IntVal(0), env.n)]), ';'))
        if not called:
            raise Unsupported('members are validated elsewhere')
        node = defined(c, fname, me, nm, StructStub)
        in_order(c, fname, env, node)
    return xform.verify(fname, run, {'*': plan()}, ('accepted',))


def defined(c, fname, me, nm, cls):
    ns = list(me.nodes)
    if len(ns) != 1 or not isinstance(ns[0], cls):
        c.record('%s: one definition' % fname, 'refuted' if not ns else 'unknown', repr(ns))
        raise PathEnd('nodes')
    sym.same('%s: one definition of the given name' % fname, ns[0].name, nm)
    ok = [k for k, v in me.typedecls.writes if v is ns[0]]
    if len(ok) != 1:
        c.record('%s: the name is declared' % fname, 'unknown', repr(me.typedecls.writes))
    else:
        sym.same('%s: the name is declared' % fname, ok[0], nm)
    return ns[0]


def in_order(c, fname, env, node):
    ms = node.members
    if not isinstance(ms, SymList):
        raise Unsupported('members of the node')
    c.prove('%s: every member once' % fname, ms.length() == env.n)
    q = c.int('any member', 0)
    c.assume(q < env.n)
    sym.same('%s: members in their order' % fname, ms.seq().elem(q), Mb(env, q), 'inv')


def union_def():
    W = world()
    fname = 'prophyc.parsers.prophy.Parser.p_union_def'

    def run(c):
        c.grow_sets, c.branch_ms = True, 300
        env = Env(c, W, True)
        me = parser(W)
        nm = Name(c.int('union', 0))
        accepted(fname, c, me.p_union_def, Prod('union', nm, SymList([('seg', env.seq, z3.IntVal(0), env.n)]), ';'))
        node = defined(c, fname, me, nm, UnionStub)
        in_order(c, fname, env, node)
        q, p = c.int('any arm', 0), c.int('an earlier arm', 0)
        c.assume(z3.And(q < env.n, p < q))
        Mb(env, p)
        Mb(env, q)
        c.prove('%s: arm names differ' % fname, env.nm(p) != env.nm(q))
        c.prove('%s: discriminators differ' % fname, env.dv(p) != env.dv(q))
        qm = c.int('arm', 0)
        c.assume(qm < env.n)
        Mb(env, qm)
        c.prove('%s: no arm of a dynamic or unlimited type' % fname, env.kd(qm) == 0)
    return xform.verify(fname, run, {'*': plan()}, ('accepted', 'rejected'))


# ------------------------------------------------------------------ members, types and names

PLAIN = {'definition': None, 'bound': None, 'size': None, 'greedy': False, 'optional': False}


def check_member(c, label, m, **want):
    for a, w in dict(PLAIN, **want).items():
        got = getattr(m, a)
        if a == 'size' and w is not None:
            if not isinstance(got, sym.NumText):
                raise Unsupported('extent %r' % (got,))
            c.prove('%s: the extent' % label, got.t == w)
        else:
            sym.same('%s: %s' % (label, a), got, w)


def member_forms():
    """Every production of a struct member builds the documented member (after its counter, where it has an implicit one)."""
    real = PP.Parser()
    res, seen = [], set()
    W = world()
    for p in real.yacc.productions:
        if p.name != 'struct_member':
            continue
        rhs = tuple(x for x in p.prod)
        spec = rhs[0]
        shape = rhs[1:]
        forms = {('ID',): 'plain', ('ID', 'LBRACKET', 'positive_expression', 'RBRACKET'): 'fixed', ('ID', 'LT', 'AT', 'ID', 'GT'): 'external',
                 ('ID', 'LT', 'GT'): 'dynamic', ('ID', 'LT', 'positive_expression', 'GT'): 'limited', ('ID', 'LT', 'DOTS', 'GT'): 'greedy', ('*', 'ID'): 'optional'}
        if shape not in forms or spec not in ('type_spec', 'bytes'):
            continue
        form = forms[shape]
        seen.add((form, spec))
        name = 'prophyc.parsers.prophy: %s member of %s' % (form, spec)

        def run(c, p=p, shape=shape, form=form, name=name):
            me = parser(W)
            ty, de, nm, bd = (Name(c.int(x, 0)) for x in ('type', 'definition', 'name', 'counter'))
            de = de if c.choose('declared type') else None
            v = c.int('extent', 1)
            vals, ids = [(ty, de)], 0
            for x in shape:
                if x == 'ID':
                    vals.append(nm if not ids else bd)
                    ids += 1
                else:
                    vals.append(SymInt(v) if x == 'positive_expression' else x)
            prod = Prod(*vals)
            accepted(name, c, getattr(me, p.func), prod)
            got = prod[0]
            ms = list(got)
            n = 2 if form in ('dynamic', 'limited') else 1
            if len(ms) != n:
                c.record('%s: number of members' % name, 'refuted', repr(ms))
                return
            ms = [x[0] for x in ms]
            sizer = 'num_of_' + nm
            if n == 2:
                sym.same('%s: counter name' % name, ms[0].name, sizer)
                sym.same('%s: counter type' % name, ms[0].type_name, 'u32')
                check_member(c, name + ': counter', ms[0])
            m = ms[-1]
            sym.same('%s: name' % name, m.name, nm)
            sym.same('%s: type' % name, m.type_name, ty)
            check_member(c, name, m, definition=de, **{
                'plain': {}, 'fixed': {'size': v}, 'external': {'bound': bd}, 'dynamic': {'bound': sizer},
                'limited': {'bound': sizer, 'size': v}, 'greedy': {'greedy': True}, 'optional': {'optional': True}}[form])
        res.append(xform.verify(name, run, {}, ('accepted',)))
    want = {(f, s) for f in ('fixed', 'external', 'dynamic', 'limited', 'greedy') for s in ('type_spec', 'bytes')} | {('plain', 'type_spec'), ('optional', 'type_spec')}
    r = xform.Result('prophyc.parsers.prophy: struct members')
    r.solver_s = 0
    r.obs = [('prophyc.parsers.prophy: every form of a struct member has a production', 'proved' if want <= seen else 'unknown', repr(want - seen), None, None)]
    return res + [r]


TYPES = {'U8': 'u8', 'U16': 'u16', 'U32': 'u32', 'U64': 'u64', 'I8': 'i8', 'I16': 'i16', 'I32': 'i32', 'I64': 'i64', 'FLOAT': 'r32', 'DOUBLE': 'r64'}


def types_and_names():
    real = PP.Parser()
    res = []
    W = world()
    words = {k.upper(): k for k in PP.Parser.keywords}
    for p in real.yacc.productions:
        rhs = tuple(p.prod)
        name = 'prophyc.parsers.prophy: %s' % p
        if p.name == 'type_spec' and len(rhs) == 1 and rhs[0] in TYPES or (p.name, rhs) == ('bytes', ('BYTES',)):
            def run(c, p=p, rhs=rhs, name=name):
                prod = Prod(words[rhs[0]])
                accepted(name, c, getattr(parser(W), p.func), prod)
                c.record('%s: the built-in type' % name, 'proved' if prod[0] == (TYPES.get(rhs[0], 'byte'), None) else 'refuted', repr(prod[0]))
            res.append(xform.verify(name, run, {}, ('accepted',)))
        elif (p.name, rhs) == ('type_spec', ('ID',)):
            def run(c, p=p, name=name):
                nm = Name(c.int('name', 0))
                me = parser(W)
                prod = Prod(nm)
                accepted(name, c, getattr(me, p.func), prod)
                c.prove('%s: only declared types' % name, me.typedecls.has(nm.t))
                sym.same('%s: the declared type' % name, prod[0], (nm, Tok('declared', SymInt(nm.t))))
            res.append(xform.verify(name, run, {}, ('accepted', 'rejected')))
        elif (p.name, rhs) == ('unique_id', ('ID',)):
            def run(c, p=p, name=name):
                nm = Name(c.int('name', 0))
                me = parser(W)
                prod = Prod(nm)
                accepted(name, c, getattr(me, p.func), prod)
                c.prove('%s: not declared before' % name, z3.Not(z3.Or(me.typedecls.has(nm.t), me.constdecls.has(nm.t))))
                sym.same('%s: the name' % name, prod[0], nm)
            res.append(xform.verify(name, run, {}, ('accepted', 'rejected')))
        elif (p.name, rhs) == ('typedef_def', ('TYPEDEF', 'type_spec', 'unique_id', 'SEMI')):
            def run(c, p=p, name=name):
                nm, ty, de = (Name(c.int(x, 0)) for x in ('name', 'type', 'definition'))
                de = de if c.choose('declared type') else None
                me = parser(W)
                accepted(name, c, getattr(me, p.func), Prod('typedef', (ty, de), nm, ';'))
                node = defined(c, name, me, nm, M.Typedef)
                sym.same('%s: the type' % name, node.type_name, ty)
                sym.same('%s: its definition' % name, node.definition, de)
            res.append(xform.verify(name, run, {}, ('accepted',)))
        elif p.name in ('enum_member_list', 'struct_member_list', 'union_member_list'):
            def run(c, p=p, rhs=rhs, name=name):
                n, m = c.int('n', 1), c.int('m', 0)
                first = SymSeq(n if p.name[0] == 's' else z3.IntVal(1), lambda i: Tok('member', SymInt(i)), 'first')
                rest = SymSeq(m, lambda i: Tok('later', SymInt(i)), 'rest')
                one = SymList([('seg', first, z3.IntVal(0), n)]) if p.name[0] == 's' else Tok('member', SymInt(0))
                vals = [one if x == p.name[:-5] else SymList([('seg', rest, z3.IntVal(0), m)]) if x == p.name else x for x in rhs]
                prod = Prod(*vals)
                accepted(name, c, getattr(parser(W), p.func), prod)
                want = SymList(one.segs if p.name[0] == 's' else [('item', one)])
                if p.name in rhs:
                    want = want + SymList([('seg', rest, z3.IntVal(0), m)])
                got = prod[0]
                got = SymList([('item', x) for x in got]) if isinstance(got, list) else SymList([('seg', got, z3.IntVal(0), got.n)]) if isinstance(got, SymSeq) else got
                a, b = got.seq(), want.seq()
                c.prove('%s: all members' % name, a.n == b.n)
                q = c.int('q', 0)
                c.assume(q < b.n)
                sym.same('%s: in their order' % name, a.elem(q), b.elem(q))
            if p.name[:-5] in rhs:
                res.append(xform.verify(name, run, {}, ('accepted',)))
    return res


def errors_reject():
    """ProphyParser.parse: reported errors become a ParseError that carries them; otherwise the nodes of the parser are returned."""
    fname = 'prophyc.parsers.prophy.ProphyParser.parse'
    cell = {}

    class Allocated(object):
        def __init__(self, stack):
            pass

        def __enter__(self):
            return cell['parser']

        def __exit__(self, *a):
            return False
    W = xform.World(None, [(PP.allocate_parser, Allocated)])
    f = W.fn(PP.ProphyParser.parse)

    def run(c):
        n = c.int('errors', 0)

        class P_(object):
            errors = SymList()
            nodes = Tok('nodes')

            def parse(self, *a):
                cell['args'] = a
                self.errors = SymList([('seg', SymSeq(n, lambda i: Tok('error', SymInt(i))), z3.IntVal(0), n)])
                return self.nodes
        cell['parser'] = P_()
        a = (Tok('content'), Tok('prefix'), Tok('file'))
        try:
            r = f(*a)
        except M.ParseError as e:
            c.outcome = 'rejected'
            c.prove('%s: rejected only with errors' % fname, n > 0)
            c.record('%s: the errors are reported' % fname, 'proved' if e.errors is cell['parser'].errors else 'unknown', '')
            return
        c.outcome = 'accepted'
        c.prove('%s: accepted only without errors' % fname, n == 0)
        sym.same('%s: the nodes of the parser' % fname, r, Tok('nodes'))
        sym.same('%s: the given text is parsed' % fname, cell['args'], a)
    return xform.verify(fname, run, {}, ('accepted', 'rejected'))
