"""Symbolic execution of the real Python functions.

The functions run in CPython; their arguments are proxy objects that build z3 terms.  Nothing here subclasses int,
bytes or list, so an operation the proxies do not model cannot silently concretise: it raises Unsupported and the
obligation is left undecided.  Branches on symbolic conditions fork: the function is re-executed with the recorded
decisions until every feasible path has been run.
"""
import builtins
import string
import time

import z3

TIMEOUT_MS = 20000


class Unsupported(Exception):
    """The code uses something the engine does not model."""


class PathEnd(BaseException):
    """This path is finished (loop iteration closed, or infeasible)."""


class SimError(Exception):
    """An exception the real callee would raise (e.g. struct.error), raised by a contract stub."""

    _kinds = {}

    def __new__(cls, kind='', msg=''):
        # a builtin exception is caught by the handlers that catch the real one
        base = getattr(builtins, kind, None) if cls is SimError and isinstance(kind, str) else None
        if isinstance(base, type) and issubclass(base, Exception):
            if kind not in SimError._kinds:
                SimError._kinds[kind] = type('Sim' + kind, (SimError, base), {})
            cls = SimError._kinds[kind]
        return Exception.__new__(cls)

    def __init__(self, kind, msg=''):
        Exception.__init__(self, '%s: %s' % (kind, msg))
        self.kind = kind


class NeedRestart(Exception):
    """A loop invariant candidate turned out not to be inductive: try the next one."""


class Ctx(object):
    """One path."""
    cur = None
    stats = {'solver_s': 0.0, 'queries': 0}
    branch_ms = None        # limit of a feasibility query (not answered: the path is explored)

    def __init__(self, prefix):
        self.solver = z3.Solver()
        self.solver.set('timeout', TIMEOUT_MS)
        self.prefix = prefix
        self.dec = []
        self.alts = []
        self.n = 0
        self.pc = []
        self.guards = []
        self.obs = []
        self.aggs = []
        self.loops = {}
        self.notes = []
        self.parent = None
        self.kb, self.qi, self.cache = (), 0, {}

    # --- solver
    def _check(self, *fs):
        # re-execution is deterministic: the same query after the same decisions has the same answer
        key = (self.kb, tuple(self.dec), self.qi)
        self.qi += 1
        if key in self.cache:
            return self.cache[key]
        r = self.cache[key] = self._ask(*fs)
        return r

    def _ask(self, *fs):
        t = time.time()
        self.solver.push()
        for f in fs:
            self.solver.add(f)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        Ctx.stats['solver_s'] += time.time() - t
        Ctx.stats['queries'] += 1
        return r, m

    def assume(self, f):
        f = b_term(f)
        self.pc.append(f)
        self.solver.add(f)

    def forget(self, keep):
        """Goes on with weaker knowledge: only the listed facts (and fewer terms for the solver to look at)."""
        self.solver = z3.Solver()
        self.solver.set('timeout', TIMEOUT_MS)
        self.pc = []
        for f in keep:
            self.assume(f)

    def feasible(self):
        return self._check()[0] != z3.unsat

    def entails(self, f):
        f = z3.simplify(b_term(f))
        if z3.is_true(f):
            return True
        return self._check(z3.Not(f))[0] == z3.unsat

    def refute(self, f):
        """(status, model) of the obligation pc => f."""
        f = z3.simplify(b_term(f))
        if z3.is_true(f):
            return 'proved', None
        r, m = self._check(z3.Not(f))
        return {'unsat': 'proved', 'sat': 'refuted'}.get(str(r), 'unknown'), m

    def branch(self, f):
        f = z3.simplify(b_term(f))
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        i = len(self.dec)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            if self.branch_ms:
                self.solver.set('timeout', self.branch_ms)
            t = self._check(f)[0] != z3.unsat
            e = self._check(z3.Not(f))[0] != z3.unsat
            if self.branch_ms:
                self.solver.set('timeout', TIMEOUT_MS)
            if t and e:
                self.alts.append(self.dec + [False])
                d = True
            elif t:
                d = True
            elif e:
                d = False
            else:
                raise PathEnd('infeasible')
            if len(self.dec) > 400:
                raise Unsupported('too many branches on one path')
        self.dec.append(d)
        self.qi = 0
        g = f if d else z3.Not(f)
        self.guards.append(g)
        self.assume(g)
        return d

    def choose(self, name):
        """A free choice (both branches are feasible)."""
        return self.branch(z3.Bool(self.fresh(name)))

    def fresh(self, name):
        self.n += 1
        return '%s!%d' % (name, self.n)

    def int(self, name, lo=None, hi=None):
        v = z3.Int(self.fresh(name))
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        return v

    # --- obligations
    def prove(self, name, f, kind='exact', info=None):
        st, m = self.refute(f)
        self.obs.append((name, st if kind == 'exact' or st != 'refuted' else 'unknown',
                         '' if st == 'proved' else 'path %s\ngoal %s' % (self.pc[-12:], z3.simplify(b_term(f))), m, info))
        return st == 'proved'

    def record(self, name, status, detail='', model=None, info=None):
        self.obs.append((name, status, detail, model, info))


def cx():
    return Ctx.cur


def explore(run, max_paths=400):
    """run(ctx) executes one path.  Returns [(ctx)]; each ctx carries its obligations."""
    work = [[]]
    res = []
    cache = {}
    while work:
        pre = work.pop()
        c = Ctx(pre)
        c.cache = cache
        old = Ctx.cur
        Ctx.cur = c
        try:
            run(c)
        except PathEnd:
            pass
        finally:
            Ctx.cur = old
        res.append(c)
        work += c.alts
        if len(res) > max_paths:
            raise Unsupported('too many paths')
    return res


def summarise(fn, wrap=None):
    """Evaluates fn() (a pure expression) over all its paths from the current state: [(branch conditions, value, facts)]."""
    outer = cx()
    work = [[]]
    res = []
    while work:
        c = Ctx.__new__(Ctx)
        c.__dict__.update(outer.__dict__)
        c.prefix, c.dec, c.alts = work.pop(), [], []
        c.kb, c.qi = (outer.kb, tuple(outer.dec), outer.qi), 0
        c.pc = []
        c.guards = []
        c.obs = []
        c.loops = dict(outer.loops)
        c.solver.push()
        c.n = outer.n
        Ctx.cur = c
        try:
            v = fn()
            res.append((list(c.guards), v, [p for p in c.pc if not any(p is g for g in c.guards)]))
        except PathEnd:
            pass
        finally:
            Ctx.cur = outer
            c.solver.pop()
        outer.obs.extend(c.obs)
        work += c.alts
        outer.n = max(outer.n, c.n)
        if len(res) > 64:
            raise Unsupported('too many paths in expression')
    outer.qi += 1
    return res


def merge(res):
    if not res:
        raise PathEnd('infeasible')
    v0 = res[0][1]
    isb = all(isinstance(v, (bool, SymBool)) for _, v, _f in res)
    if not all(isinstance(v, (int, bool, SymInt, SymBool)) for _, v, _f in res):
        if len(res) == 1:
            return v0
        raise Unsupported('cannot merge %r' % [type(v) for _, v, _f in res])
    conv = b_term if isb else i_term
    t = conv(res[-1][1])
    for pc, v, _f in reversed(res[:-1]):
        t = z3.If(z3.And(*pc) if pc else z3.BoolVal(True), conv(v), t)
    return SymBool(t) if isb else SymInt(t)


# ---------------------------------------------------------------- scalars

def i_term(x):
    if isinstance(x, SymInt):
        return x.t
    if isinstance(x, SymBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if z3.is_expr(x) and x.sort() == z3.IntSort():
        return x
    raise Unsupported('not an integer: %r' % type(x).__name__)


def b_term(x):
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, SymInt):
        return x.t != 0
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.BoolVal(x != 0)
    if z3.is_expr(x) and x.sort() == z3.BoolSort():
        return x
    raise Unsupported('not a truth value: %r' % type(x).__name__)


def isnum(x):
    return isinstance(x, (int, SymInt, SymBool)) or z3.is_expr(x)


ALIGNS = (1, 2, 4, 8)


def conc(a):
    """The numeral a is known to equal on this path, or a itself."""
    a = z3.simplify(a)
    if z3.is_int_value(a):
        return a
    c = cx()
    r, m = c._check()
    if r != z3.sat:
        return a
    v = m.eval(a, model_completion=True)
    if z3.is_int_value(v) and c.entails(a == v):
        return v
    return a


def pick(t, values):
    """Forks until the term t (known to be one of values) is a numeral."""
    for v in values[:-1]:
        if cx().branch(t == v):
            return z3.IntVal(v)
    cx().assume(t == values[-1])
    if not cx().feasible():
        raise PathEnd('infeasible')
    return z3.IntVal(values[-1])


def mod_term(x, a):
    """Python's x % a for a > 0; a is a numeral or known to be one of 1, 2, 4, 8."""
    a = conc(a)
    if z3.is_int_value(a):
        if a.as_long() == 0:
            raise SimError('ZeroDivisionError')
        if a.as_long() < 0:
            return -((-x) % z3.IntVal(-a.as_long()))
        return x % a
    if cx().entails(z3.Or(*[a == k for k in ALIGNS])):
        return z3.If(a == 1, z3.IntVal(0), z3.If(a == 2, x % 2, z3.If(a == 4, x % 4, x % 8)))
    if cx().branch(a == 0):
        raise SimError('ZeroDivisionError')
    if cx().entails(a > 0) or cx().branch(a > 0):
        return x % a
    return -((-x) % (-a))


def div_term(x, a):
    a = conc(a)
    if z3.is_int_value(a):
        if a.as_long() == 0:
            raise SimError('ZeroDivisionError')
        if a.as_long() < 0:
            return (-x) / z3.IntVal(-a.as_long())
        return x / a
    if cx().entails(z3.Or(*[a == k for k in ALIGNS])):
        return z3.If(a == 1, x, z3.If(a == 2, x / 2, z3.If(a == 4, x / 4, x / 8)))
    if cx().branch(a == 0):
        raise SimError('ZeroDivisionError')
    if cx().entails(a > 0):
        return x / a
    if cx().branch(a > 0):
        return x / a
    return (-x) / (-a)


def mul_term(a, b):
    a, b = z3.simplify(a), z3.simplify(b)
    return a * b


class SymInt(object):
    _kind = int

    def __init__(self, t):
        self.t = i_term(t)

    def __bool__(self):
        return cx().branch(self.t != 0)

    def _b(self, o, f, rev=False):
        if not isnum(o):
            return NotImplemented
        a, b = self.t, i_term(o)
        return SymInt(f(b, a) if rev else f(a, b))

    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __radd__(self, o): return self._b(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (bytes, SymBytes)):
            return SymBytes.of(o).rep(self)
        if isinstance(o, (list, SymList)):
            return list_rep(o, self)
        return self._b(o, mul_term)

    __rmul__ = __mul__

    def __mod__(self, o): return self._b(o, mod_term)
    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return self._b(o, mod_term, True)
    def __floordiv__(self, o): return self._b(o, div_term)
    def __rfloordiv__(self, o): return self._b(o, div_term, True)

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        if not isnum(o):
            return NotImplemented
        return SymQuot(self.t, i_term(o))

    def __neg__(self): return SymInt(-self.t)
    def __pos__(self): return self
    def __abs__(self): return SymInt(z3.If(self.t < 0, -self.t, self.t))

    def __lshift__(self, o):
        k = const_of(o)
        if k is None:
            return NotImplemented if not isnum(o) else shl(self.t, i_term(o))
        return SymInt(self.t * (1 << k))

    def __rlshift__(self, o):
        return shl(i_term(o), self.t)

    def __rshift__(self, o):
        k = const_of(o)
        if k is None:
            return shr(self.t, i_term(o))
        return SymInt(self.t / (1 << k))

    def __rrshift__(self, o):
        return shr(i_term(o), self.t)

    def _c(self, o, f):
        if o is None or not isnum(o):
            return NotImplemented
        return SymBool(f(self.t, i_term(o)))

    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is None or not isnum(o):
            return False
        return SymBool(self.t == i_term(o))

    def __ne__(self, o):
        if o is None or not isnum(o):
            return True
        return SymBool(self.t != i_term(o))

    def bit_length(self):
        return SymBits(self.t)

    def __pow__(self, o, *_):
        return NotImplemented

    def __rpow__(self, o):
        if const_of(o) == 2:
            return shl(z3.IntVal(1), self.t)
        return NotImplemented

    def sym_str(self):
        return NumText(self.t)

    __hash__ = None

    def __repr__(self):
        return '<%s>' % z3.simplify(self.t)

    def __format__(self, spec):
        return repr(self)

    def __index__(self):
        k = const_of(self)
        if k is None:
            raise Unsupported('symbolic integer used as a native index')
        return k

    def __int__(self):
        raise Unsupported('int() of a symbolic integer outside the engine')


POW = z3.Function('pow2', z3.IntSort(), z3.IntSort())
BITLEN = z3.Function('bit_length', z3.IntSort(), z3.IntSort())


def pow2(b):
    """2**b for b >= 0: a numeral if b is one, otherwise a name with the facts that hold for every exponent."""
    c = cx()
    b = z3.simplify(b)
    while z3.is_app_of(b, z3.Z3_OP_ITE):
        b = z3.simplify(b.arg(1) if c.branch(b.arg(0)) else b.arg(2))
    b = conc(b)
    if z3.is_int_value(b) and 0 <= b.as_long() <= 1 << 14:
        return z3.IntVal(1 << b.as_long())
    p = POW(b)
    c.imprecise = True      # only some facts of the power are known: a counterexample need not be real
    c.assume(z3.And(p > b, p >= 1))
    for k in (32, 64, 128):
        c.assume(z3.Implies(b >= k, p >= 1 << k))
    return p


def shl(a, b):
    if cx().branch(b < 0):
        raise SimError('ValueError', 'negative shift count')
    return SymInt(a * pow2(b))


def shr(a, b):
    if cx().branch(b < 0):
        raise SimError('ValueError', 'negative shift count')
    return SymInt(a / pow2(b))


class NumText(str):
    """str(n) of a symbolic integer."""

    def __new__(cls, t, base=10, err=None):
        r = str.__new__(cls, '<number>')
        r.t, r.base, r.err = t, base, err
        return r

    def sym_int(self, base=10):
        if base != self.base:
            if self.base == 16:
                raise SimError('ValueError', 'invalid literal')
            return SymInt(cx().int('misread'))
        if self.err and cx().choose(self.err):
            raise SimError('ValueError', 'too many digits')
        return SymInt(self.t)

    def __bool__(self):
        return True

    def sym_str(self):
        return self

    def __eq__(self, o):
        return isinstance(o, NumText) and bool(SymBool(self.t == o.t))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        raise Unsupported('hash of the text of a symbolic integer')

    def __repr__(self):
        return 'str(%s)' % z3.simplify(self.t)


LIT, CAT = {}, z3.Function('cat', z3.IntSort(), z3.IntSort(), z3.IntSort())


class Name(str):
    """A text known by a number: equal texts have equal numbers.  `num` (optional) is the integer it spells, when `isnum`."""

    def __new__(cls, t, isnum=None, num=None):
        r = str.__new__(cls, '<name>')
        r.t, r.isnum, r.num = t, isnum, num
        return r

    @staticmethod
    def of(x):
        if isinstance(x, Name):
            return x.t
        if not isinstance(x, str):
            return None
        return z3.IntVal(-1000 - LIT.setdefault(x, len(LIT)))

    def same(self, o):
        t = Name.of(o)
        return z3.BoolVal(False) if t is None else self.t == t

    def sym_int(self, base=10):
        if self.isnum is None:
            raise Unsupported('int() of a name')
        if not cx().branch(self.isnum):
            raise SimError('ValueError', 'invalid literal')
        return SymInt(self.num)

    def sym_str(self):
        return self

    def __eq__(self, o):
        return SymBool(self.same(o))

    def __ne__(self, o):
        return SymBool(z3.Not(self.same(o)))

    def __bool__(self):
        return True

    def __add__(self, o):
        return Name(CAT(self.t, Name.of(o)))

    def __radd__(self, o):
        return Name(CAT(Name.of(o), self.t))

    def __hash__(self):
        raise Unsupported('hash of a name')

    def __repr__(self):
        return 'name(%s)' % z3.simplify(self.t)

    def __format__(self, spec):
        return '<name>'


def _no_text(self, *a, **kw):
    raise Unsupported('text operation on a name')


for _c in (Name, NumText):
    for _m in dir(str):
        if _m not in _c.__dict__ and callable(getattr(str, _m)) and (not _m.startswith('_') or _m in (
                '__getitem__', '__len__', '__iter__', '__contains__', '__lt__', '__le__', '__gt__', '__ge__', '__mul__', '__rmul__', '__mod__')):
            setattr(_c, _m, _no_text)


S = z3.StringSort()
UPPER, LOWER = z3.Function('upper', S, S), z3.Function('lower', S, S)
ISNUM, NUM = z3.Function('spells an integer', S, z3.BoolSort()), z3.Function('integer spelt', S, z3.IntSort())
HEX, DEC = z3.Function('hexadecimal digits', z3.IntSort(), S), z3.Function('decimal digits', z3.IntSort(), S)


class Text(str):
    """Any text, as a term of the theory of strings; upper() and lower() are uninterpreted."""

    def __new__(cls, s):
        r = str.__new__(cls, '<text>')
        r.s = s
        return r

    @staticmethod
    def of(x):
        """The term of a text, or None."""
        if isinstance(x, Text):
            return x.s
        return z3.StringVal(x) if type(x) is str else None

    def sym_eq(self, o):
        t = Text.of(o)
        return False if t is None else z3.simplify(self.s == t)

    def sym_int(self, base=10):
        if base != 0:
            raise Unsupported('int() of a text in base %r' % (base,))
        if not cx().branch(ISNUM(self.s)):
            raise SimError('ValueError', 'invalid literal')
        return SymInt(NUM(self.s))

    def sym_str(self):
        return self

    def sym_len(self):
        return SymInt(z3.Length(self.s))

    def __eq__(self, o):
        t = Text.of(o)
        return False if t is None else SymBool(self.s == t)

    def __ne__(self, o):
        t = Text.of(o)
        return True if t is None else SymBool(self.s != t)

    def __bool__(self):
        return cx().branch(z3.Length(self.s) > 0)

    def __add__(self, o):
        t = Text.of(o)
        if t is None:
            raise Unsupported('text + %r' % (o,))
        return Text(z3.Concat(self.s, t))

    def __radd__(self, o):
        t = Text.of(o)
        if t is None:
            raise Unsupported('%r + text' % (o,))
        return Text(z3.Concat(t, self.s))

    def __contains__(self, o):
        t = Text.of(o)
        if t is None:
            raise Unsupported('%r in a text' % (o,))
        return cx().branch(z3.Contains(self.s, t))

    def __getitem__(self, i):
        n = z3.Length(self.s)
        if isinstance(i, slice):
            if i.step is not None or not all(x is None or isinstance(x, int) and x >= 0 for x in (i.start, i.stop)):
                raise Unsupported('slice of a text')
            lo = i.start or 0
            return Text(z3.SubString(self.s, lo, n - lo if i.stop is None else i.stop - lo))
        if not isinstance(i, int) or i < 0:
            raise Unsupported('index of a text')
        if not cx().branch(n > i):
            raise SimError('IndexError')
        return Text(z3.SubString(self.s, i, 1))

    def startswith(self, o, *a):
        t = Text.of(o)
        if t is None or a:
            raise Unsupported('startswith')
        return SymBool(z3.PrefixOf(t, self.s))

    def endswith(self, o, *a):
        t = Text.of(o)
        if t is None or a:
            raise Unsupported('endswith')
        return SymBool(z3.SuffixOf(t, self.s))

    def upper(self):
        return self._case(UPPER)

    def lower(self):
        return self._case(LOWER)

    def _case(self, f):
        cx().assume((z3.Length(f(self.s)) == 0) == (z3.Length(self.s) == 0))
        return Text(f(self.s))

    def __hash__(self):
        raise Unsupported('hash of a text')

    def __repr__(self):
        return 'text(%s)' % z3.simplify(self.s)

    def __format__(self, spec):
        return '<text>'


def formatted(fmt, args, kw):
    """fmt.format(*args, **kw) with texts, numbers and plain strings; None if it is something else."""
    parts, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        if lit:
            parts.append(z3.StringVal(lit))
        if field is None:
            continue
        if conv or not (field == '' or field.isdigit() or field in kw):
            return None
        if field == '':
            v, auto = args[auto], auto + 1
        else:
            v = kw[field] if field in kw else args[int(field)]
        if isinstance(v, SymInt) and spec in ('', 'd', 'x', 'X'):
            f = (HEX if spec in ('x', 'X') else DEC)(v.t)
            whole = z3.Concat(z3.StringVal('0x'), f) if f.decl().eq(HEX) else f
            # facts of Python: what is printed reads back
            cx().assume(z3.Implies(v.t >= 0, z3.And(ISNUM(whole), NUM(whole) == v.t, z3.Length(f) > 0)))
            parts.append(f)
        elif Text.of(v) is not None and not spec:
            parts.append(Text.of(v))
        else:
            return None
    return Text(parts[0] if len(parts) == 1 else z3.Concat(*parts)) if parts else ''


for _m in dir(str):
    if _m not in Text.__dict__ and callable(getattr(str, _m)) and (not _m.startswith('_') or _m in (
            '__len__', '__iter__', '__lt__', '__le__', '__gt__', '__ge__', '__mul__', '__rmul__', '__mod__', '__rmod__')):
        setattr(Text, _m, _no_text)


class SymQuot(object):
    """x / a, only good for being truncated again."""

    def __init__(self, n, d):
        self.n, self.d = n, d


class SymBits(SymInt):
    """x.bit_length(): compared with numerals by the magnitude of x, which is exact."""

    def __init__(self, x):
        SymInt.__init__(self, BITLEN(x))
        self.x = x

    def _at_least(self, o):
        """self >= o for a numeral o"""
        k = const_of(o)
        if k is None:
            raise Unsupported('bit length compared with a symbolic number')
        if k <= 0:
            return SymBool(z3.BoolVal(True))
        return SymBool(z3.Or(self.x >= 1 << k - 1, self.x <= -(1 << k - 1)))

    def __ge__(self, o): return self._at_least(o)
    def __lt__(self, o): return SymBool(z3.Not(self._at_least(o).t))
    def __gt__(self, o): return self._at_least(o + 1)
    def __le__(self, o): return SymBool(z3.Not(self._at_least(o + 1).t))
    def __eq__(self, o): return SymBool(z3.And(self._at_least(o).t, z3.Not(self._at_least(o + 1).t)))
    def __ne__(self, o): return SymBool(z3.Not(self.__eq__(o).t))
    __hash__ = None


def const_of(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, SymInt):
        t = z3.simplify(x.t)
        if z3.is_int_value(t):
            return t.as_long()
    return None


class SymBool(object):
    _kind = bool

    def __init__(self, t):
        self.t = b_term(t)

    def __bool__(self):
        return cx().branch(self.t)

    def __add__(self, o): return SymInt(i_term(self)) + o
    def __radd__(self, o): return SymInt(i_term(self)) + o
    def __sub__(self, o): return SymInt(i_term(self)) - o
    def __rsub__(self, o): return o - SymInt(i_term(self))
    def __mul__(self, o): return SymInt(i_term(self)) * o
    def __rmul__(self, o): return SymInt(i_term(self)) * o

    def __and__(self, o):
        return SymBool(z3.And(self.t, b_term(o))) if isinstance(o, (bool, SymBool)) else NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.t, b_term(o))) if isinstance(o, (bool, SymBool)) else NotImplemented
    __ror__ = __or__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(self.t == b_term(o))
        if isnum(o):
            return SymBool(i_term(self) == i_term(o))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return SymBool(z3.Not(b_term(r)))

    __hash__ = None

    def __repr__(self):
        return '<%s>' % z3.simplify(self.t)


# ---------------------------------------------------------------- opaque values

class Tok(object):
    """An opaque value: equal to another iff same name and provably equal arguments."""

    def __init__(self, name_, /, *args, **attrs):
        self.name_, self.args_ = name_, args
        for k, v in attrs.items():
            setattr(self, k, v)

    def __repr__(self):
        return '%s(%s)' % (self.name_, ', '.join(map(repr, self.args_)))

    def __bool__(self):
        raise Unsupported('truth of opaque %r' % self)

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, Tok) and self.name_ == o.name_ and len(self.args_) == len(o.args_):
            cs = []
            for a, b in zip(self.args_, o.args_):
                if isnum(a) and isnum(b):
                    cs.append(i_term(a) == i_term(b))
                elif a is b or (isinstance(a, str) and a == b):
                    pass
                else:
                    raise Unsupported('comparison of opaque values')
            return SymBool(z3.And(*cs)) if cs else True
        if o is None:
            return False
        raise Unsupported('comparison of opaque %r' % self)

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else SymBool(z3.Not(r.t))

    def __hash__(self):
        raise Unsupported('hash of opaque value')


class Poison(object):
    """A local whose value is not covered by the loop invariant."""

    def __init__(self, why='value not covered by the loop invariant'):
        object.__setattr__(self, '_why', why)

    def _no(self, *a, **k):
        raise Unsupported(object.__getattribute__(self, '_why'))

    __bool__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __len__ = __iter__ = __getitem__ = _no
    __call__ = __eq__ = __lt__ = __gt__ = __le__ = __ge__ = __ne__ = __str__ = __format__ = _no
    __hash__ = None

    def __repr__(self):
        return '<poison>'

    def __getattr__(self, n):
        raise Unsupported(self._why)


# ---------------------------------------------------------------- bytes as ropes

class SymBytes(object):
    """A byte string as a rope of chunks: ('zero', n) | ('lit', bytes) | ('op', name, args, len) |
    ('cat', n, fn, lenterm) (concatenation over i < n of fn(i))."""
    _kind = bytes

    def __init__(self, chunks):
        self.chunks = list(chunks)

    @staticmethod
    def of(x):
        if isinstance(x, SymBytes):
            return x
        if isinstance(x, bytes):
            return SymBytes([('zero', z3.IntVal(len(x)))] if x and not x.strip(b'\0') else [('lit', x)] if x else [])
        raise Unsupported('not bytes: %r' % type(x).__name__)

    @staticmethod
    def zero(n):
        return SymBytes([('zero', i_term(n))])

    @staticmethod
    def op(name, args, length):
        return SymBytes([('op', name, tuple(args), i_term(length))])

    def length(self):
        t = z3.IntVal(0)
        for c in self.chunks:
            t = t + clen(c)
        return z3.simplify(t)

    def __add__(self, o):
        if not isinstance(o, (bytes, SymBytes)):
            return NotImplemented
        return SymBytes(self.chunks + SymBytes.of(o).chunks)

    def __radd__(self, o):
        if not isinstance(o, (bytes, SymBytes)):
            return NotImplemented
        return SymBytes(SymBytes.of(o).chunks + self.chunks)

    def rep(self, n):
        """self * n"""
        n = i_term(n)
        m = z3.simplify(z3.If(n < 0, z3.IntVal(0), n))
        if not self.chunks:
            return SymBytes([])
        if len(self.chunks) == 1 and self.chunks[0][0] == 'zero' and z3.is_int_value(self.chunks[0][1]) \
                and self.chunks[0][1].as_long() == 1:
            return SymBytes.zero(m)
        if z3.is_int_value(m) and m.as_long() < 64:
            return SymBytes(self.chunks * m.as_long())
        return SymBytes([('op', 'rep', (repr(self.chunks), m), m * self.length())])

    def __mul__(self, n):
        return self.rep(n)
    __rmul__ = __mul__

    def ljust(self, n, fill=b' '):
        fill = SymBytes.of(fill)
        n = i_term(n)
        ln = self.length()
        return self + fill.rep(SymInt(z3.If(n > ln, n - ln, z3.IntVal(0))))

    def join(self, it):
        if isinstance(it, Comp):
            if self.chunks:
                raise Unsupported('join with a separator')
            return it.concat()
        if isinstance(it, SymList):
            if self.chunks:
                raise Unsupported('join with a separator')
            return it.concat()
        out = SymBytes([])
        first = True
        for x in it:
            if not first:
                out = out + self
            out = out + SymBytes.of(x)
            first = False
        return out

    def __bool__(self):
        return cx().branch(self.length() != 0)

    def __getitem__(self, idx):
        if not isinstance(idx, slice) or idx.step is not None:
            raise Unsupported('indexing bytes')
        ln = self.length()

        def clamp(x, default):
            if x is None:
                return default
            x = i_term(x)
            x = z3.If(x < 0, z3.If(x + ln < 0, z3.IntVal(0), x + ln), z3.If(x > ln, ln, x))
            return z3.simplify(x)
        lo, hi = clamp(idx.start, z3.IntVal(0)), clamp(idx.stop, ln)
        hi = z3.simplify(z3.If(hi < lo, lo, hi))
        return self.slice(lo, hi)

    def slice(self, lo, hi):
        chunks = norm(self.chunks)
        # exact cut at chunk boundaries when provable
        pos = z3.IntVal(0)
        bounds = [pos]
        for c in chunks:
            pos = z3.simplify(pos + clen(c))
            bounds.append(pos)
        def locate(x, last):
            """(chunk index, offset inside a zero chunk or None) of position x"""
            k = next((k for k, b in enumerate(bounds) if cx().entails(b == x)), None)
            if k is not None:
                return k, None
            for k, ch in enumerate(chunks):
                if ch[0] == 'zero' and cx().entails(z3.And(bounds[k] <= x, x <= bounds[k + 1])):
                    return k, z3.simplify(x - bounds[k])
            return None
        a = locate(lo, False)
        if a is not None:
            b = locate(hi, True)
            if b is not None:
                if a[0] == b[0] and (a[1] is not None or b[1] is not None):
                    return SymBytes.zero(z3.simplify(hi - lo))
                out = []
                first = a[0]
                if a[1] is not None:
                    out.append(('zero', z3.simplify(bounds[first + 1] - lo)))
                    first += 1
                if first <= b[0]:
                    out += chunks[first:b[0]]
                    if b[1] is not None:
                        out.append(('zero', b[1]))
                    return SymBytes(out)
        return SymBytes([('op', 'slice', (self, lo, hi), z3.simplify(hi - lo))])

    def startswith(self, *_):
        raise Unsupported('bytes.startswith')

    def __eq__(self, o):
        if not isinstance(o, (bytes, SymBytes)):
            return False
        raise Unsupported('comparison of symbolic bytes')

    __hash__ = None

    def __len__(self):
        raise Unsupported('native len of symbolic bytes')

    def __repr__(self):
        return 'bytes%r' % (self.chunks,)


def clen(c):
    return c[1] if c[0] == 'zero' else z3.IntVal(len(c[1])) if c[0] == 'lit' else c[3]


def norm(chunks):
    c = cx()
    out = []
    for ch in chunks:
        if ch[0] == 'lit' and not ch[1]:
            continue
        if ch[0] == 'zero':
            n = z3.simplify(ch[1])
            if z3.is_int_value(n) and n.as_long() == 0:
                continue
            if out and out[-1][0] == 'zero':
                out[-1] = ('zero', z3.simplify(out[-1][1] + n))
                continue
            ch = ('zero', n)
        elif ch[0] == 'op' and ch[1] == 'pk' and isnum(ch[2][1]) and const_of(ch[2][1]) == 0:
            if out and out[-1][0] == 'zero':
                out[-1] = ('zero', z3.simplify(out[-1][1] + ch[3]))
                continue
            ch = ('zero', ch[3])
        out.append(ch)
    res = []
    for ch in out:
        if c.entails(clen(ch) == 0):
            continue
        if res and res[-1][0] == 'zero' and ch[0] == 'zero':
            res[-1] = ('zero', z3.simplify(res[-1][1] + ch[1]))
            continue
        res.append(ch)
    return res


def args_same(a, b):
    """A formula (or False) equating two argument tuples."""
    if len(a) != len(b):
        return False
    cs = []
    for x, y in zip(a, b):
        r = value_eq(x, y)
        if r is False:
            return False
        if r is not True:
            cs.append(r)
    return z3.And(*cs) if cs else True


def value_eq(x, y):
    """True | False | z3 formula for x == y over engine values (structural for opaque ones)."""
    if x is y:
        return True
    if isinstance(x, (SymBool, bool)) and isinstance(y, (SymBool, bool)):
        return z3.simplify(b_term(x) == b_term(y))
    if isnum(x) and isnum(y):
        return z3.simplify(i_term(x) == i_term(y))
    if isinstance(x, (SymBytes, bytes)) and isinstance(y, (SymBytes, bytes)):
        return rope_eq(SymBytes.of(x), SymBytes.of(y))
    if isinstance(x, SymList) and isinstance(y, SymList):
        return x.same(y)
    if isinstance(x, Tok) and isinstance(y, Tok):
        return x.name_ == y.name_ and args_same(x.args_, y.args_)
    if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)):
        return args_same(tuple(x), tuple(y))
    if isinstance(x, SymList) and isinstance(y, (tuple, list)):
        return x.same(SymList(list(('item', v) for v in y)))
    if isinstance(y, SymList) and isinstance(x, (tuple, list)):
        return y.same(SymList(list(('item', v) for v in x)))
    if isinstance(x, Name) or isinstance(y, Name):
        return z3.simplify(x.same(y)) if isinstance(x, Name) else z3.simplify(y.same(x))
    if isinstance(x, Text) or isinstance(y, Text):
        # a kind of text with an equality of its own decides
        return y.sym_eq(x) if isinstance(y, Text) and type(y) is not Text or not isinstance(x, Text) else x.sym_eq(y)
    if type(x) is type(y) and isinstance(x, (str, type(None), float)):
        return x == y
    if hasattr(x, 'sym_eq'):
        return x.sym_eq(y)
    return False


def rope_eq(a, b):
    """True | False | formula: same chunks after normalisation."""
    c = cx()
    A, B = norm(a.chunks), norm(b.chunks)
    if len(A) != len(B):
        # zero-length ambiguity: equal only if the extra chunks vanish
        return False
    cs = []
    for x, y in zip(A, B):
        if x[0] != y[0]:
            return False
        if x[0] == 'zero':
            cs.append(x[1] == y[1])
        elif x[0] == 'lit':
            if x[1] != y[1]:
                return False
        elif x[0] == 'op':
            if x[1] != y[1]:
                return False
            r = args_same(x[2], y[2])
            if r is False:
                return False
            if r is not True:
                cs.append(r)
        elif x[0] == 'cat':
            i = z3.Int(c.fresh('j'))
            r = summar_formula(lambda: value_eq(x[2](i), y[2](i)), z3.And(i >= 0, i < x[1]))
            if r is False:
                return False
            cs.append(x[1] == y[1])
            if r is not True:
                cs.append(r)
    return z3.simplify(z3.And(*cs)) if cs else True


def summar_formula(fn, cond):
    """True if fn() holds for all i under cond (all paths), else False."""
    outer = cx()
    ok = [True]

    def run():
        cx().assume(cond)
        r = fn()
        if r is False:
            ok[0] = False
        elif r is not True and not cx().entails(r):
            ok[0] = False
        return 0
    summarise(run)
    del outer
    return ok[0]


def same(name, x, y, kind='exact', info=None):
    """Obligation x == y."""
    r = value_eq(x, y)
    c = cx()
    if r is True:
        c.record(name, 'proved')
        return True
    if r is False:
        # structurally different: distinguishable only if some state exhibits it
        c.record(name, 'refuted' if kind == 'exact' else 'unknown', 'got %r\nexpected %r\npath %s' % (x, y, c.pc[-12:]),
                 None, info)
        return False
    st, m = c.refute(r)
    c.record(name, st if kind == 'exact' or st != 'refuted' else 'unknown',
             '' if st == 'proved' else 'got %r\nexpected %r\npath %s' % (x, y, c.pc[-12:]), m, info)
    return st == 'proved'


def is_same(x, y):
    r = value_eq(x, y)
    return r is True or (r is not False and cx().entails(r))


# ---------------------------------------------------------------- sequences

class SymSeq(object):
    """A sequence of n elements; elem(i) builds the i-th (i is a z3 Int)."""

    def __init__(self, n, elem, name='seq'):
        self.n, self.elem, self.name = i_term(n), elem, name

    def length(self):
        return self.n

    def __bool__(self):
        return cx().branch(self.n != 0)

    def __len__(self):
        raise Unsupported('native len of a symbolic sequence')

    def __iter__(self):
        k = z3.simplify(self.n)
        if z3.is_int_value(k):
            return iter([self.elem(z3.IntVal(i)) for i in range(k.as_long())])
        raise Unsupported('native iteration over symbolic sequence %s' % self.name)

    def __getitem__(self, idx):
        if isinstance(idx, slice):
            if idx.step is not None:
                raise Unsupported('slice step')
            lo, hi = z3.IntVal(0), self.n

            def clamp(x):
                x = i_term(x)
                return z3.simplify(z3.If(x < 0, z3.If(x + self.n < 0, z3.IntVal(0), x + self.n),
                                         z3.If(x > self.n, self.n, x)))
            if idx.start is not None:
                lo = clamp(idx.start)
            if idx.stop is not None:
                hi = clamp(idx.stop)
            hi = z3.simplify(z3.If(hi < lo, lo, hi))
            base = self.elem
            return SymSeq(z3.simplify(hi - lo), lambda i: base(z3.simplify(i + lo)), self.name)
        i = i_term(idx)
        if cx().branch(i < 0):
            i = i + self.n
        if not cx().branch(z3.And(i >= 0, i < self.n)):
            raise SimError('IndexError')
        return self.elem(z3.simplify(i))

    def __add__(self, o):
        o = as_seq(o)
        n, a, b = self.n, self.elem, o.elem
        return SymSeq(z3.simplify(self.n + o.n),
                      lambda i: a(i) if cx().branch(i < n) else b(z3.simplify(i - n)), self.name)

    def __radd__(self, o):
        return as_seq(o) + self

    def __repr__(self):
        return '%s[0..%s)' % (self.name, self.n)


def as_seq(x):
    if isinstance(x, SymSeq):
        return x
    if isinstance(x, Comp):
        return x.seq()
    if isinstance(x, SymList):
        return x.seq()
    if isinstance(x, (list, tuple)):
        xs = list(x)

        def elem(i):
            i = z3.simplify(i)
            if z3.is_int_value(i):
                return xs[i.as_long()]
            for k in range(len(xs) - 1):
                if cx().branch(i == k):
                    return xs[k]
            return xs[-1]
        return SymSeq(z3.IntVal(len(xs)), elem)
    raise Unsupported('not a sequence: %r' % type(x).__name__)


class SymList(object):
    """A mutable list: segments ('seg', family, lo, hi) and ('item', x)."""
    _kind = list

    def __init__(self, segs=()):
        self.segs = list(segs)
        self.epoch = len(cx().loops) if cx() else 0

    def append(self, x):
        guard_write(self)
        self.segs.append(('item', x))

    def extend(self, xs):
        guard_write(self)
        if isinstance(xs, SymList):
            self.segs += xs.segs
        elif isinstance(xs, (list, tuple)):
            self.segs += [('item', x) for x in xs]
        elif isinstance(xs, (SymSeq, Comp)):
            s = as_seq(xs)
            self.segs.append(('seg', s, z3.IntVal(0), s.n))
        else:
            raise Unsupported('extend')

    def split(self, pos):
        """Cuts the segments at a position within the list; returns the number of segments before it."""
        at = z3.IntVal(0)
        for k, s in enumerate(self.segs):
            if cx().branch(pos == at):
                return k
            n = z3.IntVal(1) if s[0] == 'item' else z3.simplify(s[3] - s[2])
            if s[0] == 'seg' and cx().branch(pos < at + n):
                mid = z3.simplify(s[2] + pos - at)
                self.segs[k:k + 1] = [('seg', s[1], s[2], mid), ('seg', s[1], mid, s[3])]
                return k + 1
            at = z3.simplify(at + n)
        return len(self.segs)

    def place(self, idx):
        """The segment holding just the element at an index (IndexError outside the list)."""
        i, n = i_term(idx), self.length()
        if cx().branch(i < 0):
            i = i + n
        if not cx().branch(z3.And(i >= 0, i < n)):
            raise SimError('IndexError')
        k = self.split(z3.simplify(i))
        while self.segs[k][0] == 'seg' and not cx().branch(self.segs[k][2] < self.segs[k][3]):
            k += 1
        if self.segs[k][0] == 'seg':
            s = self.segs[k]
            if not cx().entails(s[3] == s[2] + 1):
                mid = z3.simplify(s[2] + 1)
                self.segs[k:k + 1] = [('seg', s[1], s[2], mid), ('seg', s[1], mid, s[3])]
        return k

    def insert(self, idx, x):
        guard_write(self)
        if const_of(idx) == 0:
            self.segs.insert(0, ('item', x))
            return
        i, n = i_term(idx), self.length()
        if cx().branch(i < 0):
            i = i + n
            if cx().branch(i < 0):
                i = z3.IntVal(0)
        elif cx().branch(i > n):
            i = n
        self.segs.insert(self.split(z3.simplify(i)), ('item', x))

    def pop(self, idx=-1):
        guard_write(self)
        k = self.place(idx)
        s = self.segs.pop(k)
        return s[1] if s[0] == 'item' else s[1].elem(s[2])

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def length(self):
        t = z3.IntVal(0)
        for s in self.segs:
            t = t + (1 if s[0] == 'item' else s[3] - s[2])
        return z3.simplify(t)

    def concrete(self):
        return all(s[0] == 'item' for s in self.segs)

    def __bool__(self):
        return cx().branch(self.length() != 0)

    def __iter__(self):
        if self.concrete():
            return iter([s[1] for s in self.segs])
        raise Unsupported('native iteration over a symbolic list')

    def __len__(self):
        if self.concrete():
            return len(self.segs)
        raise Unsupported('native len of a symbolic list')

    def seq(self):
        if self.concrete():
            return as_seq([s[1] for s in self.segs])
        if len(self.segs) == 1:
            _, fam, lo, hi = self.segs[0]
            return SymSeq(z3.simplify(hi - lo), lambda i: fam.elem(z3.simplify(i + lo)))
        r = None
        for s in self.segs:
            q = as_seq([s[1]]) if s[0] == 'item' else SymSeq(
                z3.simplify(s[3] - s[2]), lambda i, f=s[1], lo=s[2]: f.elem(z3.simplify(i + lo)))
            r = q if r is None else r + q
        return r

    def __getitem__(self, idx):
        if self.concrete() and not isinstance(idx, SymInt) and not (
                isinstance(idx, slice) and any(isinstance(q, SymInt) for q in (idx.start, idx.stop))):
            r = [s[1] for s in self.segs][idx]
            return SymList([('item', x) for x in r]) if isinstance(idx, slice) else r
        return self.seq()[idx]

    def __setitem__(self, idx, v):
        guard_write(self)
        if isinstance(idx, slice) and idx.start is None and idx.stop is None and idx.step is None:
            self.segs = []
            self.extend(v)
            return
        if isinstance(idx, slice):
            raise Unsupported('list slice assignment')
        self.segs[self.place(idx)] = ('item', v)

    def __delitem__(self, idx):
        guard_write(self)
        if isinstance(idx, slice) and idx.start is None and idx.stop is None and idx.step is None:
            self.segs = []
            return
        if isinstance(idx, slice):
            raise Unsupported('list slice deletion')
        del self.segs[self.place(idx)]

    def __add__(self, o):
        r = SymList(self.segs)
        r.extend(o)
        return r

    def __radd__(self, o):
        r = SymList()
        r.extend(o)
        return r + self

    def __mul__(self, n):
        return list_rep(self, n)
    __rmul__ = __mul__

    def concat(self):
        out = SymBytes([])
        for s in self.segs:
            if s[0] == 'item':
                out = out + SymBytes.of(s[1])
            else:
                out = out + s[1].concat_rope(s[2], s[3])
        return out

    def normal(self):
        """Folds items into the preceding/following family segment when they are its next element."""
        out = []
        for s in self.segs:
            if s[0] == 'seg':
                if cx().entails(s[2] >= s[3]):
                    continue
                if out and out[-1][0] == 'seg' and out[-1][1] is s[1] and cx().entails(out[-1][3] == s[2]):
                    out[-1] = ('seg', s[1], out[-1][2], s[3])
                    continue
            elif out and out[-1][0] == 'seg':
                p = out[-1]
                if is_same(s[1], p[1].elem(p[3])):
                    out[-1] = ('seg', p[1], p[2], z3.simplify(p[3] + 1))
                    continue
            out.append(s)
        return out

    def same(self, o):
        A, B = self.normal(), o.normal()
        # a lone leading item may be family element 0 of the other side
        if len(A) != len(B):
            return False
        cs = []
        for x, y in zip(A, B):
            if x[0] == y[0] == 'item':
                r = value_eq(x[1], y[1])
            elif x[0] == y[0] == 'seg':
                if x[1] is y[1]:
                    r = z3.And(x[2] == y[2], x[3] == y[3])
                else:
                    i = z3.Int(cx().fresh('j'))
                    ok = summar_formula(lambda: value_eq(x[1].elem(z3.simplify(x[2] + i)), y[1].elem(z3.simplify(y[2] + i))),
                                        z3.And(i >= 0, i < x[3] - x[2]))
                    if not ok:
                        return False
                    r = x[3] - x[2] == y[3] - y[2]
            else:
                seg, it = (x, y) if x[0] == 'seg' else (y, x)
                if not cx().entails(seg[3] == seg[2] + 1):
                    return False
                r = value_eq(seg[1].elem(seg[2]), it[1])
            if r is False:
                return False
            if r is not True:
                cs.append(r)
        return z3.And(*cs) if cs else True

    def __repr__(self):
        return 'list%r' % (self.segs,)


def list_rep(xs, n):
    xs = list(xs) if not isinstance(xs, SymList) else [s[1] for s in xs.segs]
    if len(xs) != 1:
        raise Unsupported('list repetition')
    n = i_term(n)
    m = z3.simplify(z3.If(n < 0, z3.IntVal(0), n))
    x = xs[0]
    fam = SymSeq(m, lambda i: x, 'rep')
    return SymList([('seg', fam, z3.IntVal(0), m)])


class SymDict(object):
    """A dictionary with few explicitly written keys over an unknown-content base."""
    _kind = dict

    def __init__(self):
        self.writes = []
        self.ghost = {}
        self.epoch = len(cx().loops) if cx() else 0

    def __setitem__(self, k, v):
        guard_write(self)
        self.writes.append((k, v))

    def get(self, k, d=None):
        for kk, v in reversed(self.writes):
            if kk is k or (type(kk) is type(k) and truth(kk == k)):
                return v
        return d

    def __getitem__(self, k):
        for kk, v in reversed(self.writes):
            if kk is k or (type(kk) is type(k) and truth(kk == k)):
                return v
        raise SimError('KeyError', repr(k))

    def __contains__(self, k):
        return any(kk is k or (type(kk) is type(k) and truth(kk == k)) for kk, _ in self.writes)

    def __bool__(self):
        return bool(self.writes)

    def __repr__(self):
        return 'dict%r' % (self.writes,)


def truth(x):
    return cx().branch(x.t) if isinstance(x, (SymBool, SymInt)) else bool(x)


def guard_write(obj):
    """A write to an object created before the innermost open loop is allowed only if that loop havocs it."""
    for lp in cx().loops.values():
        if lp.open and id(obj) not in lp.covered and obj.epoch < lp.index:
            raise Unsupported('loop writes an object its invariant does not cover')


class Comp(object):
    """A comprehension over a symbolic sequence."""

    def __init__(self, kind, seq, fn, cond):
        self.kind, self.src, self.fn, self.cond = kind, seq, fn, cond

        self.forced = False

    def body(self, i):
        self.force()
        return self.fn(self.src.elem(i))

    def force(self):
        """If evaluating some element may raise, fork: either the comprehension raises, or no element does."""
        if self.forced:
            return
        self.forced = True
        raising = []
        i = z3.Int(cx().fresh('i'))
        fn = self.fn

        def probe():
            cx().assume(z3.And(i >= 0, i < self.src.n))
            e = self.src.elem(i)
            if self.cond is not None and not truth(self.cond(e)):
                return 0
            try:
                fn(e)
            except Unsupported:
                raise
            except Exception as ex:
                raising.append(ex)
            return 0
        summarise(probe)
        if not raising:
            return
        c = cx()
        uniq = {}
        for ex in raising:
            uniq.setdefault((type(ex), getattr(ex, 'kind', None)), ex)
        for ex in uniq.values():
            if c.choose('element raises'):
                c.assume(self.src.n > 0)
                if not c.feasible():
                    raise PathEnd('infeasible')
                raise ex

        if not getattr(c, 'witnesses', ()):
            c.imprecise = True
        for w in getattr(c, 'witnesses', ()):
            # no element raises: in particular not those the contract knows about
            if c.branch(z3.And(w >= 0, w < self.src.n)):
                try:
                    fn(self.src.elem(w))
                except Unsupported:
                    raise
                except Exception:
                    raise PathEnd('infeasible')

        def quiet(e):
            try:
                return fn(e)
            except Unsupported:
                raise
            except Exception:
                raise PathEnd('infeasible')
        self.fn = quiet

    def seq(self):
        if self.cond is not None:
            raise Unsupported('filtered comprehension used as a sequence')
        return SymSeq(self.src.n, self.body, 'comp')

    @property
    def n(self):
        return self.src.n

    def concat(self):
        if self.cond is not None:
            raise Unsupported('filtered join')
        s = self
        n = z3.simplify(z3.If(self.src.n < 0, z3.IntVal(0), self.src.n))
        return cat_rope(n, s.body)

    def __iter__(self):
        k = z3.simplify(self.src.n)
        if z3.is_int_value(k):
            for i in range(k.as_long()):
                e = self.src.elem(z3.IntVal(i))
                if self.cond is None or truth(self.cond(e)):
                    yield self.fn(e)
            return
        raise Unsupported('native iteration over a symbolic comprehension')


def cat_rope(n, body):
    """concat over i < n of body(i); its length is a sum, constant-size bodies give n * size."""
    c = cx()
    if z3.is_int_value(n) and n.as_long() <= 8:
        out = SymBytes([])
        for i in range(n.as_long()):
            out = out + SymBytes.of(body(z3.IntVal(i)))
        return out
    ln = aggregate('sum', n, lambda i: SymInt(SymBytes.of(body(i)).length()))
    c.assume(ln.t >= 0)     # a sum of lengths
    return SymBytes([('cat', n, body, ln.t)])


def aggregate(kind, n, body):
    """sum / max / any / all over i < n of body(i), as a term shared by provably equal aggregates."""
    c = cx()
    i = z3.Int(c.fresh('i'))
    n0 = c.n
    n = i_term(n)

    def val():
        cx().assume(z3.And(i >= 0, i < n))
        return body(i)
    r = summarise(val)
    facts = []
    if not r:
        t = z3.IntVal(0) if kind in ('sum', 'max') else z3.BoolVal(kind == 'all')
    else:
        t = (b_term if kind in ('any', 'all') else i_term)(merge(r))
        for g, _, fs in r:
            fs = [f for f in fs if contains(f, i) and not has_fresh(f, n0, i)]
            if fs:
                facts.append(z3.Implies(z3.And(*g), z3.And(*fs)) if g else z3.And(*fs))
    if has_fresh(t, n0, i):
        raise Unsupported('aggregate of values that are not a function of the index')
    rng = z3.And(i >= 0, i < n, *facts)
    t = z3.simplify(t)
    if kind == 'sum' and not contains(t, i):
        return SymInt(z3.simplify(n * t) if True else t)
    if kind == 'sum':
        for body2, S in getattr(c, 'sum_specs', ()):
            if c.entails(z3.Implies(rng, t == body2(i))):
                return SymInt(S(n))
    for cand, w, lemma in getattr(c, 'agg_specs', lambda kind, n, i: ())(kind, n, i):
        # a stated extremum: an upper bound (of an arbitrary element, with the lemma's instance) that element w attains
        at_w = z3.substitute(z3.And(rng, t == cand if kind == 'max' else t), (i, w))
        if kind == 'max' and c.entails(z3.Implies(z3.And(rng, lemma), t <= cand)) and \
                c.entails(z3.Implies(z3.substitute(lemma, (i, w)), at_w)):
            c.assume(z3.And(*[z3.substitute(f, (i, w)) for f in facts + [lemma]]))
            return SymInt(cand)
        if kind == 'any' and c.entails(z3.Implies(z3.And(rng, lemma), z3.Implies(t, cand))) and \
                c.entails(z3.Implies(z3.And(cand, z3.substitute(lemma, (i, w))), at_w)):
            return SymBool(cand)
    for k2, n2, i2, t2, res in c.aggs:
        if k2 == kind:
            goal = z3.And(n == n2, z3.Implies(rng, t == z3.substitute(t2, (i2, i))))
            if c.entails(goal):
                return res
    if kind in ('any', 'all'):
        res = SymBool(z3.Bool(c.fresh(kind)))
        j = z3.Int(c.fresh('w'))
        hold = t if kind == 'any' else z3.Not(t)
        flag = res.t if kind == 'any' else z3.Not(res.t)
        # definition: flag iff some index in range satisfies it
        c.assume(z3.Implies(flag, z3.And(z3.substitute(rng, (i, j)), z3.substitute(hold, (i, j)))))
        c.assume(z3.Implies(z3.Not(flag), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Not(hold)))))
    else:
        res = SymInt(z3.Int(c.fresh(kind)))
        if kind == 'max':
            j = z3.Int(c.fresh('w'))
            c.assume(z3.Implies(n > 0, z3.And(z3.substitute(rng, (i, j)), res.t == z3.substitute(t, (i, j)))))
            c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), res.t >= t)))
        else:
            # non-negative bodies give a non-negative sum
            if c.entails(z3.Implies(rng, t >= 0)):
                c.assume(res.t >= 0)
            c.assume(z3.Implies(n <= 0, res.t == 0))
    c.aggs.append((kind, n, i, t, res))
    return res


def has_fresh(t, n0, i):
    """Does t mention a constant made after counter n0 (other than i)?"""
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not z3.eq(x, i):
            nm = x.decl().name()
            if '!' in nm and nm.rsplit('!', 1)[1].isdigit() and int(nm.rsplit('!', 1)[1]) > n0:
                return True
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo += x.children()
    return False


def contains(t, v):
    seen, todo, want = set(), [t], v.get_id()
    while todo:
        x = todo.pop()
        k = x.get_id()
        if k == want:
            return True
        if k not in seen:
            seen.add(k)
            todo += x.children()
    return False
