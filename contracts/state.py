"""Contracts on what one compilation leaves behind for the next (C20): the state of the expression evaluator and of the parser
of the prophy language.  The state before is arbitrary; what is worked out does not depend on it."""
import z3

from contracts.base import B, I, Unsupported, cx, i_term, sym, xform
from contracts.expr import Lexer, Prod, world
from engine.sym import Name, SimError, SymInt, Tok

import prophyc.calc  # noqa: E402
import prophyc.parsers.prophy as PP


class Constants(object):
    """An arbitrary table of constants."""
    _kind = dict

    def __init__(self, c, what):
        self.has, self.val = z3.Function(c.fresh('has ' + what), I, B), z3.Function(c.fresh('value ' + what), I, I)
        self.over, self.changed = [], False

    def find(self, k):
        for o in reversed(self.over):
            r = o.find(k)
            if r is not None:
                return r
        return SymInt(self.val(Name.of(k))) if cx().branch(self.has(Name.of(k))) else None

    def get(self, k, d=None):
        r = self.find(k)
        return d if r is None else r

    def __getitem__(self, k):
        r = self.find(k)
        if r is None:
            raise SimError('KeyError', repr(k))
        return r

    def __contains__(self, k):
        return self.find(k) is not None

    def update(self, other):
        self.changed = True
        self.over.append(other)

    def clear(self):
        self.has, self.over, self.changed = (lambda k: z3.BoolVal(False)), [], True

    def __getattr__(self, a):
        raise Unsupported('%s of a table of constants' % a)

    def copy(self):
        r = Constants(cx(), 'copy')
        r.has, r.val, r.over = self.has, self.val, list(self.over)
        return r


class Visited(object):
    """A set of names."""
    _kind = set

    def __init__(self, names=()):
        self.names = list(names)

    def __contains__(self, x):
        return cx().branch(z3.Or(False, *[Name.of(n) == Name.of(x) for n in self.names if isinstance(n, str)])) if isinstance(x, str) else False

    def add(self, x):
        self.names.append(x)


def calc_state():
    name = 'prophyc.calc.Calc.eval'
    W = world()

    class Parser(object):
        def parse(self, expr, lexer=None):
            p = Prod(expr)
            self.me.p_expression_name(p)
            return p[0]

    def run(c):
        c.make_set = lambda *a: Visited(*a)
        me = object.__new__(W.classes[prophyc.calc.Calc])
        me.parser, me.lexer = Parser(), Lexer()
        me.parser.me = me
        me.vars, given = Constants(c, 'earlier'), Constants(c, 'given')
        k = Name(c.int('name', 0))
        how, v = 'return', None
        try:
            v = me.eval(k, given)
        except prophyc.calc.ParseError:
            how = 'error'
        c.outcome = how
        has = given.has(k.t)
        c.prove('%s: names are looked up in the constants given, and nowhere else' % name, has if how == 'return' else z3.Not(has))
        if how == 'return':
            c.prove('%s: a name has the value given' % name, i_term(v) == given.val(k.t) if isinstance(v, (int, SymInt)) else z3.BoolVal(False))
        c.prove('%s: the constants given stay as they are' % name, z3.BoolVal(not given.changed))
    return [xform.verify(name + ' state', run, {}, ('return', 'error'))]


class Stale(object):
    """A container left by an earlier file: its contents are unknown."""

    def __init__(self, kind, name):
        self._kind, self.name, self.emptied = kind, name, False

    def clear(self):
        self.emptied = True

    def __delitem__(self, i):
        if i != slice(None, None, None):
            raise Unsupported('deletion in the state of an earlier file')
        self.emptied = True

    def __getattr__(self, a):
        raise Unsupported('%s of the state of an earlier file' % a)


def new_parsers():
    """Executed on opaque arguments: does every parse, also one within another, get a parser of its own?"""
    used = []

    class Recorder(object):
        def __init__(self):
            self.errors, self.nodes = [], []

        def parse(self, content, prefix, parse_file):
            used.append(self)
            if content == 'outer':
                parse_file(Tok('leaf'))

    real = PP.Parser
    PP.Parser = Recorder
    try:
        parse = PP.ProphyParser().parse
        for content in ('a', 'outer', 'b', 'outer'):
            parse(content, Tok('prefix'), lambda leaf: parse('inner', Tok('prefix'), None))
    finally:
        PP.Parser = real
    return len(used) == 6 and len(set(map(id, used))) == 6


def parser_state():
    fresh = new_parsers()
    r = xform.Result('prophyc.parsers.prophy.ProphyParser.parse')
    r.solver_s = 0
    if fresh:
        r.obs = [('prophyc.parsers.prophy.ProphyParser.parse: every file is parsed by a parser of its own', 'proved', '', None, None)]
        return [r]
    return reused_parser()


def reused_parser():
    name = 'prophyc.parsers.prophy.Parser.parse'
    W = world()
    real = PP.Parser()
    real.parse('', 'f', None)
    kept = ('lexer', 'yacc')

    class Yacc(object):
        def parse(self, content, lexer=None, **kw):
            self.seen = dict(vars(self.me))
            self.line = self.me.lexer.lineno

    def run(c):
        me = object.__new__(W.classes[PP.Parser])
        before = {}
        for a, v in vars(real).items():
            if a not in kept:
                before[a] = Stale(type(v), a) if isinstance(v, (list, dict, set)) else Tok('stale', a)
                setattr(me, a, before[a])
        me.lexer, me.yacc = Lexer(), Yacc()
        me.lexer.lineno, me.yacc.me = Tok('stale', 'line'), me
        prefix, include = Tok('prefix'), Tok('parse_file')
        me.parse(Tok('content'), prefix, include)
        c.outcome = 'return'
        seen = getattr(me.yacc, 'seen', None)
        if seen is None:
            raise Unsupported('the file is not parsed')
        for a, old in before.items():
            v = seen[a]
            fresh = v is not old and (not isinstance(v, (list, dict, set)) or not v) or isinstance(old, Stale) and old.emptied
            c.record('%s: starts without the %s of an earlier file' % (name, a), 'proved' if fresh else 'refuted', repr(v))
        c.record('%s: lines are counted from the start of the file' % name, 'proved' if me.yacc.line == 1 else 'refuted', repr(me.yacc.line))
        handed = before.get('nodes')
        if isinstance(handed, Stale):
            c.record('%s: the definitions of an earlier file stay' % name, 'refuted' if handed.emptied or me.nodes is handed else 'proved')
    return [xform.verify(name + ' state', run, {}, ('return',))]


# ------------------------------------------------------------------ numbers of the model (C14)

def numbers():
    """to_int and Constant.eval_int on an arbitrary text: a number, the name of a constant or another expression."""
    import prophyc.model as M
    from contracts.files import Only
    PE = prophyc.calc.ParseError
    res = []

    def setup(c):
        x = Name(c.int('text', 0), z3.Bool(c.fresh('a number')), z3.Int(c.fresh('number')))
        env = Constants(c, 'constants')
        good, value = z3.Bool(c.fresh('an expression')), z3.Int(c.fresh('its value'))

        def ev(text, vars_):
            """Contract of calc.eval (proved in the checks of C14 and C20): numbers, names of constants, other expressions."""
            if vars_ is not env or not c.entails(Name.of(text) == x.t):
                raise Unsupported('evaluation of something else')
            if c.branch(x.isnum):
                return SymInt(x.num)
            if c.branch(env.has(x.t)):
                return SymInt(env.val(x.t))
            if not c.branch(good):
                raise PE('x')
            return SymInt(value)
        W = xform.World(None, [(prophyc.calc, Only('calc', eval=ev, ParseError=PE, calc=Only('calc', eval=ev)))])
        want = z3.If(x.isnum, x.num, z3.If(env.has(x.t), env.val(x.t), value))
        ok = z3.Or(x.isnum, env.has(x.t), good)
        return x, env, W, want, ok

    def done(c, name, fn, want, ok, none):
        try:
            r = fn()
        except PE:
            c.outcome = 'error'
            if none:
                c.record('%s: raises nothing' % name, 'refuted', 'ParseError')
            c.prove('%s: no value only for a text without one' % name, z3.Not(ok))
            return
        except SimError as e:
            c.record('%s: raises nothing but ParseError' % name, 'refuted', repr(e))
            return
        if r is None:
            c.outcome = 'error'
            c.prove('%s: no value only for a text without one' % name, z3.And(z3.Not(ok), z3.BoolVal(none)))
            return
        c.outcome = 'return'
        c.prove('%s: the value of the text' % name, z3.And(ok, i_term(r) == want) if isinstance(r, (int, SymInt)) else z3.BoolVal(False))

    def to_int(c):
        x, env, W, want, ok = setup(c)
        done(c, 'prophyc.model.to_int', lambda: W.fn(M.to_int)(x, env), want, ok, False)

    def eval_int(c):
        x, env, W, want, ok = setup(c)
        me = Only('constant', value=x, _value=x)
        done(c, 'prophyc.model.Constant.eval_int', lambda: W.fn(M.Constant.eval_int)(me, env), want, ok, True)
    for name, run in (('prophyc.model.to_int', to_int), ('prophyc.model.Constant.eval_int', eval_int)):
        res.append(xform.verify(name, run, {}, ('return', 'error')))
    return res
