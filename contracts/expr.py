"""Contracts of constant expressions (C14): the semantic actions of the two grammars that evaluate them -
prophyc/parsers/prophy.py and prophyc/calc.py - and the parse tables their precedence declarations turn into.

Every action is extracted from the current source and run on arbitrary integers.  Its result is the exact value of
the operation, or the designed error is raised; the error is allowed only where the value is undefined (division by
zero, negative shift count) or does not fit 64 bits.  Grouping is decided by the LALR action table, which is finite:
every pair of operators is looked up in every state an expression can occur in.
"""
import z3

from contracts.base import SimError, SymInt, Unsupported, i_term, sym, xform
from engine.sym import NumText

import prophyc.calc  # noqa: E402
import prophyc.model
import prophyc.parsers.prophy

_W = None
BIG = 1 << 64


def world():
    global _W
    if _W is None:
        _W = xform.World(None, [])
        _W.declare(prophyc.parsers.prophy.Parser, prophyc.calc.Calc)
    return _W


class Symbol(object):
    """What ply keeps on its stack: value and position."""

    def __init__(self, value):
        self.value, self.lineno, self.lexpos = value, 1, 0


class Prod(object):
    """The production object handed to a semantic action; trusted contract of ply.yacc.YaccProduction."""

    def __init__(self, *values):
        self.slice = [Symbol(None)] + [Symbol(v) for v in values]
        self.lexer = Symbol('')
        self.wrote = False

    def __getitem__(self, i):
        return self.slice[i].value

    def __setitem__(self, i, v):
        self.wrote = self.wrote or i == 0
        self.slice[i].value = v

    def __len__(self):
        return len(self.slice)

    def lineno(self, i):
        return self.slice[i].lineno

    def lexpos(self, i):
        return self.slice[i].lexpos


class Lexer(object):
    lexdata = ''
    lineno = 1


class ProphyGrammar(object):
    name = 'prophyc.parsers.prophy'
    shifts = ('LSHIFT', 'RSHIFT')

    def __init__(self):
        self.real = prophyc.parsers.prophy.Parser()
        self.tables = self.real.yacc
        self.lexer = self.real.lexer

    def fresh(self):
        p = object.__new__(world().classes[prophyc.parsers.prophy.Parser])
        p._init_parse_data('f')
        p.lexer = Lexer()
        return p

    def run(self, c, me, func, prod):
        """'return' | 'error': errors of this parser are collected and raised at the end of parsing."""
        f = getattr(me, func)
        before = len(me.errors)
        f(prod)
        return 'error' if len(me.errors) > before else 'return'


class CalcGrammar(object):
    name = 'prophyc.calc'

    def __init__(self):
        self.real = prophyc.calc.calc
        self.tables = self.real.parser
        self.lexer = self.real.lexer

    def fresh(self):
        p = object.__new__(world().classes[prophyc.calc.Calc])
        p.lexer = Lexer()
        p.vars = {}
        return p

    def run(self, c, me, func, prod):
        f = getattr(me, func)
        try:
            f(prod)
        except prophyc.calc.ParseError:
            return 'error'
        except SimError as e:
            if e.kind == 'ValueError':      # turned into ParseError by Calc.eval, see calc_eval
                return 'error'
            raise
        return 'return'


def token(lexer, text):
    lx = lexer.clone()
    lx.input(text)
    t = lx.token()
    return t.type, t.value


def floor_div(a, b):
    return z3.If(b > 0, a / b, (-a) / (-b))


def no_escape(c, name, fn):
    try:
        r = fn()
        c.record('%s: raises only the designed error' % name, 'proved')
        return r
    except SimError as e:
        c.outcome = e.kind
        c.record('%s: raises only the designed error' % name, 'refuted' if c.feasible() else 'proved', repr(e),
                 c._check()[1])
        raise sym.PathEnd('escaped')


def judge(c, name, how, prod, exact, defined, limit=BIG):
    """how is 'return' or 'error'; exact the mathematical value where defined."""
    c.outcome = how
    if how == 'return':
        c.prove('%s: a value only where the expression has one' % name, defined)
        c.prove('%s: result is stored' % name, z3.BoolVal(prod.wrote))
        v = prod[0]
        if not isinstance(v, (int, SymInt)):
            raise Unsupported('result is %r' % type(v).__name__)
        c.prove('%s: exact value' % name, i_term(v) == exact)
    else:
        c.prove('%s: an error only for undefined or over 64-bit values' % name,
                z3.Or(z3.Not(defined), exact >= limit, exact <= -limit))


def binop(g, func, op, sign):
    """op is '+', '-', '*', '/', '<<' or '>>'; sign its token value"""
    name = '%s.%s %s' % (g.name, func, op)
    res = []

    def contract(fix):
        def run(c):
            a, b = c.int('a'), c.int('b')
            true = z3.BoolVal(True)
            if fix is None and op in ('<<', '>>'):
                c.assume(z3.Or(b < 0, b > 66))
            elif fix is not None:
                b = z3.IntVal(fix)
            if op == '+':
                exact, defined = a + b, true
            elif op == '-':
                exact, defined = a - b, true
            elif op == '*':
                exact, defined = a * b, true
            elif op == '/':
                if c.branch(b == 0):
                    exact, defined = z3.IntVal(0), z3.BoolVal(False)
                else:
                    exact, defined = ((a / b) if c.branch(b > 0) else (-a) / (-b)), true
            elif c.branch(b < 0):
                exact, defined = z3.IntVal(0), z3.BoolVal(False)
            else:
                p = sym.pow2(b)
                exact, defined = (a * p if op == '<<' else a / p), true
                if op == '<<':
                    # |a * 2**b| >= 2**b for a != 0
                    c.assume(z3.And(z3.Implies(a > 0, exact >= p), z3.Implies(a < 0, exact <= -p)))
            prod = Prod(SymInt(a), sign, SymInt(b))
            how = no_escape(c, name, lambda: g.run(c, g.fresh(), func, prod))
            judge(c, name, how, prod, exact, defined)
        return run
    if op in ('<<', '>>'):
        # every shift count: 0..66 one by one, all others together
        r = xform.verify(name, contract(None), {}, ())
        for k in range(67):
            q = xform.verify(name, contract(k), {}, ('return',))
            r.obs += q.obs
            r.solver_s += q.solver_s
            r.paths += q.paths
        res.append(r)
    else:
        res.append(xform.verify(name, contract(None), {}, ('return',) + (('error',) if op == '/' else ())))
    return res


def passes(g, func, n, at, sign, label):
    """expression -> ... expression ...: the value is sign times the operand."""
    name = '%s.%s' % (g.name, func) if not label else '%s.%s %s' % (g.name, func, label)

    def run(c):
        a = c.int('a')
        vals = [Symbol('x').value] * n
        vals[at] = SymInt(a)
        prod = Prod(*vals)
        how = no_escape(c, name, lambda: g.run(c, g.fresh(), func, prod))
        judge(c, name, how, prod, sign * a, z3.BoolVal(True))
    return [xform.verify(name, run, {}, ('return',))]


def undecided(name, why):
    r = xform.Result(name)
    r.obs, r.solver_s = [('%s: contract applies' % name, 'unknown', why, None, None)], 0.0
    return [r]


def actions(g):
    res = []
    ops = {token(g.lexer, t)[0]: (t, token(g.lexer, t)[1]) for t in ('+', '-', '*', '/', '<<', '>>')}
    seen = set()
    for p in g.tables.productions:
        rhs = [x for x in p.prod]
        try:
            if p.name in ('expression', 'constant', 'positive_expression', 'statement'):
                kind = tuple('E' if x in ('expression', 'constant', 'CONST8', 'CONST10', 'CONST16') else x for x in rhs)
                if len(kind) == 3 and kind[0] == kind[2] == 'E' and kind[1] in ops:
                    op, sign = ops[kind[1]]
                    seen.add(op)
                    res += binop(g, p.func, op, sign)
                elif kind == ('-', 'E'):
                    seen.add('neg')
                    res += passes(g, p.func, 2, 1, -1, '')
                elif kind == ('(', 'E', ')'):
                    seen.add('group')
                    res += passes(g, p.func, 3, 1, 1, '')
                elif kind == ('E',) and p.name == 'positive_expression':
                    res += positive(g, p.func)
                elif kind == ('E',):
                    seen.add('number')
                    res += passes(g, p.func, 1, 0, 1, rhs[0])
        except Unsupported as e:
            res += undecided('%s.%s' % (g.name, p.func), str(e))
    missing = {'+', '-', '*', '/', '<<', '>>', 'neg', 'group', 'number'} - seen
    r = xform.Result('%s grammar' % g.name)
    r.solver_s = 0.0
    r.obs = [('%s grammar: every operator has a production' % g.name, 'unknown' if missing else 'proved',
              'no production of the expected form for %s' % sorted(missing), None, None)]
    return res + [r]


def positive(g, func):
    name = '%s.%s' % (g.name, func)

    def run(c):
        a = c.int('a')
        prod = Prod(SymInt(a))
        how = no_escape(c, name, lambda: g.run(c, g.fresh(), func, prod))
        c.outcome = how
        if how == 'return':
            c.prove('%s: extent is positive' % name, a > 0)
            c.prove('%s: extent is the value' % name, i_term(prod[0]) == a)
        else:
            c.prove('%s: an error only for a non-positive extent' % name, a <= 0)
    return [xform.verify(name, run, {}, ('return', 'error'))]


# ------------------------------------------------------------------ grouping

PREC = {'+': 1, '-': 1, '*': 2, '/': 2, '<<': 3, '>>': 3}


def grouping(g):
    """In every state that expects an expression: after `expression op1 expression` and `- expression`, every next
    operator op2 reduces iff op1 binds at least as tight (left associative), otherwise it is shifted."""
    t = g.tables
    ops = {token(g.lexer, x)[0]: x for x in PREC}
    r = xform.Result('%s parse table' % g.name)
    r.solver_s = 0.0
    out = {}

    def rule(k):
        p = t.productions[-k]
        return p.name, tuple(p.prod)

    def put(name, ok, detail):
        out.setdefault(name, [])
        if not ok:
            out[name].append(detail)
    states = [s for s in t.goto if 'expression' in t.goto[s]]

    def after(s, tok):
        """the state reached on tok in s, or None"""
        k = t.action[s].get(tok)
        return k if k is not None and k > 0 else None
    for s in states:
        e = t.goto[s]['expression']
        for a, x in ops.items():
            s1 = after(e, a)
            if s1 is None:
                # `-` operand: an operator may not extend it here, then it has to reduce
                k = t.action[e].get(a)
                put('%s: %s may follow an expression' % (r.function, x), k is not None and k < 0, 'state %d' % e)
                continue
            e1 = t.goto[s1].get('expression')
            put('%s: %s takes a right operand' % (r.function, x), e1 is not None, 'state %d' % s1)
            if e1 is None:
                continue
            for b, y in ops.items():
                k = t.action[e1].get(b)
                nm = '%s: a %s b %s c groups %s' % (r.function, x, y, 'left' if PREC[x] >= PREC[y] else 'right')
                if PREC[x] >= PREC[y]:
                    ok = k is not None and k < 0 and rule(k) == ('expression', ('expression', a, 'expression'))
                else:
                    ok = k is not None and k > 0
                put(nm, ok, 'state %d action %r' % (e1, k))
        m = after(s, '-')
        if m is not None:
            e1 = t.goto[m].get('expression')
            for b, y in ops.items():
                k = t.action[e1].get(b) if e1 is not None else None
                put('%s: -a %s b negates a first' % (r.function, y),
                    k is not None and k < 0 and rule(k) == ('expression', ('-', 'expression')), 'state %r action %r' % (e1, k))
        put('%s: unary minus wherever an expression may start' % r.function, m is not None, 'state %d' % s)
        m = after(s, '(')
        put('%s: parenthesis wherever an expression may start' % r.function, m is not None, 'state %d' % s)
        if m is not None:
            e1 = t.goto[m].get('expression')
            q = after(e1, ')') if e1 is not None else None
            put('%s: parenthesis closes' % r.function, q is not None, 'state %r' % e1)
            if q is not None:
                for b, y in ops.items():
                    k = t.action[q].get(b, t.defaulted_states.get(q))
                    put('%s: (a) %s b uses the group' % (r.function, y), k is not None and k < 0 and
                        rule(k) == ('expression', ('(', 'expression', ')')), 'state %r action %r' % (q, k))
    r.obs = [(n, 'refuted' if bad else 'proved', '; '.join(bad[:3]), None, None) for n, bad in out.items()]
    if not any(p.name == 'expression' and tuple(p.prod) == ('expression', '+', 'expression') for p in t.productions):
        r.obs = [('%s: ambiguous grammar resolved by precedence' % r.function, 'unknown', 'other grammar form', None, None)]
    return [r]


# ------------------------------------------------------------------ names, uses

def names():
    """A named constant or enumerator evaluates to what its definition evaluated to."""
    g = ProphyGrammar()
    res = []

    def define(c, me, kind, v):
        if kind == 'constant':
            return g.run(c, me, 'p_constant_def', Prod('const', 'K', '=', SymInt(v), ';'))
        return g.run(c, me, 'p_enum_member', Prod('K', '=', SymInt(v)))
    for kind, lo, hi in (('constant', -(1 << 63), 1 << 64), ('enumerator', 0, 1 << 32)):
        name = 'prophyc.parsers.prophy: %s definition and use' % kind

        def run(c):
            v = c.int('v')
            me = g.fresh()
            how = no_escape(c, name, lambda: define(c, me, kind, v))
            fits = z3.And(v >= lo, v < hi)
            c.outcome = how
            if how == 'error':
                c.prove('%s: an error only for a value out of range' % name, z3.Not(fits))
                return
            c.prove('%s: an error for every value out of range' % name, fits)
            prod = Prod('K')
            how = no_escape(c, name, lambda: g.run(c, me, 'p_expression_name', prod))
            c.prove('%s: the name is known' % name, z3.BoolVal(how == 'return'))
            if how == 'return':
                c.prove('%s: the name evaluates to its definition' % name, i_term(prod[0]) == v)
            node = me.constdecls['K']
            if not isinstance(node.value, NumText):
                raise Unsupported('value text')
            c.prove('%s: the model carries the value' % name, node.value.t == v)
        res.append(xform.verify(name, run, {}, ('return', 'error')))

    name = 'prophyc.parsers.prophy: union discriminator'

    def disc(c):
        v = c.int('v')
        prod = Prod(SymInt(v), ':', ('u8', None), 'x')
        how = no_escape(c, name, lambda: g.run(c, g.fresh(), 'p_union_member', prod))
        fits = z3.And(v >= 0, v < 1 << 32)
        c.outcome = how
        c.prove('%s: an error exactly for values out of range' % name, fits if how == 'return' else z3.Not(fits))
        if how == 'return':
            m = prod[0][0]
            c.prove('%s: the model carries the value' % name, m.discriminator.t == v)
    res.append(xform.verify(name, disc, {}, ('return', 'error')))

    for func, form in (('p_struct_member_2', ['[', 'v', ']']), ('p_struct_member_5', ['<', 'v', '>'])):
        name = 'prophyc.parsers.prophy.%s' % func

        def extent(c):
            v = c.int('v', 1)
            prod = Prod(*[('u8', None), 'x'] + [SymInt(v) if x == 'v' else x for x in form])
            how = no_escape(c, name, lambda: g.run(c, g.fresh(), func, prod))
            c.outcome = how
            c.prove('%s: no error' % name, z3.BoolVal(how == 'return'))
            m = prod[0][-1][0]
            c.prove('%s: the extent is the value of the expression' % name, m.size.t == v)
        res.append(xform.verify(name, extent, {}, ('return',)))
    return res


def literals():
    """A literal token has the value its digits denote; int() of a literal text is trusted."""
    res = []
    for g, K in ((ProphyGrammar(), prophyc.parsers.prophy.Parser), (CalcGrammar(), prophyc.calc.Calc)):
        for tok, base, text in (('CONST10', 10, '12'), ('CONST16', 16, '0xFf'), ('CONST8', 8, '017')):
            if not hasattr(K, 't_' + tok):
                continue
            name = '%s.t_%s' % (g.name, tok)

            def run(c):
                n = c.int('n', 0)
                me = g.fresh()
                t = Symbol(NumText(n, base, 'too many digits' if base == 10 else None))
                t.type, t.lexer, t.lexpos = tok, Lexer(), 0
                try:
                    r = getattr(me, 't_' + tok)(t)
                except SimError as e:
                    c.outcome = e.kind
                    c.prove('%s: raises only for literals int() rejects' % name,
                            z3.BoolVal(e.kind == 'ValueError' and base == 10))
                    return
                c.outcome = 'return'
                if getattr(me, 'errors', None):
                    c.prove('%s: an error only for literals int() rejects' % name, z3.BoolVal(base == 10))
                    return
                c.prove('%s: token is passed on' % name, z3.BoolVal(r is t))
                c.prove('%s: value of the digits' % name, i_term(t.value) == n)
            res.append(xform.verify(name, run, {}, ('return',)))
            ty, v = token(g.lexer, text)
            q = xform.Result(name + ' pattern')
            q.solver_s = 0.0
            q.obs = [('%s: the lexer chooses it' % name, 'proved' if (ty, v) == (tok, int(text, base)) else 'refuted',
                      '%r' % ((ty, v),), None, None)]
            res.append(q)
    return res


def calc_eval():
    """Calc.eval: the parser's ValueError becomes ParseError, its result is passed on."""
    name = 'prophyc.calc.Calc.eval'
    W = world()

    class P(object):
        def parse(self, expr, lexer=None):
            if cx_choose('ValueError'):
                raise SimError('ValueError', 'negative shift count')
            if cx_choose('ParseError'):
                raise prophyc.calc.ParseError('x')
            return SymInt(self.v)

    def cx_choose(n):
        return sym.cx().choose(n)

    def run(c):
        me = object.__new__(W.classes[prophyc.calc.Calc])
        me.parser, me.lexer = P(), Lexer()
        me.parser.v = v = c.int('v')
        try:
            r = me.eval('e', {})
        except prophyc.calc.ParseError:
            c.outcome = 'error'
            c.record('%s: raises only ParseError' % name, 'proved')
            return
        except SimError as e:
            c.record('%s: raises only ParseError' % name, 'refuted', repr(e))
            return
        c.outcome = 'return'
        c.prove('%s: passes the value on' % name, i_term(r) == v)
    return [xform.verify(name, run, {}, ('return', 'error'))]


def prophy_actions():
    return actions(ProphyGrammar())


def calc_actions():
    return actions(CalcGrammar())


def extents():
    g = ProphyGrammar()
    return [r for p in g.tables.productions if p.name == 'positive_expression' and len(p.prod) == 1 for r in positive(g, p.func)]


def groupings():
    return grouping(ProphyGrammar()) + grouping(CalcGrammar())
