"""Contracts of the Python runtime codec: prophy/{scalar,container,composite,descriptor,optional,generators}.py.

Encoders: the result is the canonical byte string of the specification (docs/encoding.rst), for every value.
Decoders, first contract: given data that carries the canonical encoding at `pos`, the decoder restores the value and
consumes exactly that encoding.  Second contract: for arbitrary data it returns or raises ProphyError, nothing else.
"""
import z3

from contracts.base import (B, I, PK, SimError, StructModule, SymBool, SymBytes, SymInt, SymSeq, Tok, Unsupported, cx,
                            i_term, is_align, pad, sym, xform)
from contracts.world import prophy, world
from engine.sym import b_term, SymDict, SymList
from engine.xform import Cand, LoopPlan

ProphyError = prophy.scalar.ProphyError

SCALARS = {'i8': (1, 'b'), 'i16': (2, 'h'), 'i32': (4, 'i'), 'i64': (8, 'q'), 'u8': (1, 'B'), 'u16': (2, 'H'),
           'u32': (4, 'I'), 'u64': (8, 'Q'), 'r32': (4, 'f'), 'r64': (8, 'd')}


def order(c):
    return '<' if c.choose('little') else '>'


def pk(fmt, v):
    return SymBytes([('op', 'pk', (fmt, v), z3.IntVal(PK[fmt[1]][0]))])


def opaque(name, length, *args):
    return SymBytes.op(name, args, length)


def buffer(c, pos, *ropes):
    """Pre(pos) ++ ropes ++ Post"""
    d = opaque('Pre', pos)
    for r in ropes:
        d = d + r
    m = c.int('post', 0)
    return d + opaque('Post', m)


def any_data(c):
    n = c.int('datalen', 0)
    return opaque('D', n), n


def static(fname, name, ok, detail=''):
    return (name, 'proved' if ok else 'refuted', detail, None, None)


def caught(c, fname, fn):
    """Runs fn; ('return', v) | ('ProphyError', e); any other exception fails the exceptional postcondition."""
    try:
        v = fn()
        c.outcome = 'return'
        return 'return', v
    except ProphyError as e:
        c.outcome = 'ProphyError'
        c.record('%s: raises nothing but ProphyError' % fname, 'proved')
        return 'ProphyError', e
    except SimError as e:
        c.outcome = e.kind
        c.record('%s: raises nothing but ProphyError' % fname, 'refuted' if c.feasible() else 'proved',
                 '%r escapes\npath %s' % (e, c.pc[-12:]), c._check()[1])
        raise sym.PathEnd('escaped')


# ------------------------------------------------------------------ arithmetic leaves

def leaf_padding():
    W = world()
    f = W.fn(prophy.composite.distance_to_next_multiply)
    name = 'prophy.composite.distance_to_next_multiply'

    def run(c):
        n, a = c.int('n', 0), c.int('a', 1)
        c.assume(is_align(a))
        r = f(SymInt(n), SymInt(a))
        c.outcome = 'return'
        sym.same('%s: smallest padding to a multiple of the alignment' % name, r, SymInt(pad(n, a)))
        for k in sym.ALIGNS:
            c.prove('%s: aligned to %d' % (name, k), z3.Implies(a == k, (n + i_term(r)) % k == 0))
        c.prove('%s: less than the alignment' % name, z3.And(i_term(r) >= 0, i_term(r) < a))
    return xform.verify(name, run, {}, ('return',))


class WireType(object):
    """A type seen only through its wire attributes."""

    def __init__(self, c):
        self._OPTIONAL = SymBool(z3.Bool(c.fresh('opt')))
        for a in ('_OPTIONAL_ALIGNMENT', '_ALIGNMENT', '_OPTIONAL_SIZE', '_SIZE'):
            setattr(self, a, SymInt(c.int(a, 0)))


def leaf_wire():
    W = world()
    res = []
    for nm, opt, non in (('wire_alignment', '_OPTIONAL_ALIGNMENT', '_ALIGNMENT'), ('wire_size', '_OPTIONAL_SIZE', '_SIZE')):
        f = W.fn(getattr(prophy.composite, nm))
        name = 'prophy.composite.' + nm

        def run(c):
            t = WireType(c)
            r = f(t)
            c.outcome = 'return'
            sym.same('%s: optional members count with their flag' % name, r,
                     SymInt(z3.If(t._OPTIONAL.t, getattr(t, opt).t, getattr(t, non).t)))
        res.append(xform.verify(name, run, {}, ('return',)))
    return res


# ------------------------------------------------------------------ scalars

def scalars():
    W = world()
    res = []
    for nm, (size, code) in sorted(SCALARS.items()):
        K = getattr(prophy.scalar, nm)
        enc, dec, chk = W.fn(K._encode), W.fn(K._decode), W.fn(K._check)
        lo, hi = PK[code][1:]
        base = 'prophy.scalar.%s' % nm

        def value(c):
            if lo is None:
                return Tok('x', fits32=True)
            return SymInt(c.int('x', lo, hi))

        def r_enc(c):
            e, v = order(c), value(c)
            r = enc(v, e)
            c.outcome = 'return'
            sym.same('%s._encode: %d bytes in the given byte order' % (base, size), r, pk(e + code, v))

        def r_dec(c):
            e, v = order(c), value(c)
            pos = c.int('pos', 0)
            r = dec(buffer(c, pos, pk(e + code, v)), SymInt(pos), e)
            c.outcome = 'return'
            sym.same('%s._decode: restores the encoded value' % base, r, (v, size))

        def r_total(c):
            e = order(c)
            pos = c.int('pos', 0)
            d, n = any_data(c)
            what, r = caught(c, base + '._decode', lambda: dec(d, SymInt(pos), e))
            if what == 'return':
                v, s = r
                c.prove('%s._decode: consumes bytes that exist' % base, z3.And(i_term(s) == size, pos + size <= n))
                if lo is not None:
                    c.prove('%s._decode: value in range' % base, z3.And(i_term(v) >= lo, i_term(v) <= hi))
            else:
                c.prove('%s._decode: rejects only short data' % base, pos + size > n)

        def r_check(c):
            if c.choose('integer'):
                v = SymInt(c.int('x'))
                what, r = caught(c, base + '._check', lambda: chk(v))
                if lo is not None:
                    if what == 'return':
                        sym.same('%s._check: accepted value is stored unchanged' % base, r, v)
                        c.prove('%s._check: accepts only values in range' % base, z3.And(v.t >= lo, v.t <= hi))
                    else:
                        c.prove('%s._check: rejects only values out of range' % base, z3.Not(z3.And(v.t >= lo, v.t <= hi)))
            else:
                what, r = caught(c, base + '._check', lambda: chk(Alien()))
                c.record('%s._check: rejects other types' % base, 'proved' if what == 'ProphyError' else 'refuted')
        if lo is None:
            def r_check(c):  # noqa: F811
                what, r = caught(c, base + '._check', lambda: chk(Alien()))
                c.record('%s._check: rejects other types' % base, 'proved' if what == 'ProphyError' else 'refuted')
        for suffix, run, exp in (('_encode', r_enc, ('return',)), ('_decode', r_dec, ('return',)),
                                 ('_decode', r_total, ('return', 'ProphyError')),
                                 ('_check', r_check, ('return', 'ProphyError') if lo is not None else ('ProphyError',))):
            res.append(xform.verify('%s.%s' % (base, suffix), run, {}, exp))
            res[-1].tags = {'_encode': 'enc', '_check': 'check'}.get(suffix, 'dec' if run is r_dec else 'total')
        st = xform.Result(base)
        st.obs = [static(base, '%s: size and alignment are %d' % (base, size), K._SIZE == size and K._ALIGNMENT == size,
                         '%r %r' % (K._SIZE, K._ALIGNMENT)),
                  static(base, '%s: fixed, not optional, not a sizer' % base,
                         (K._DYNAMIC, K._UNLIMITED, K._OPTIONAL, K._BOUND) == (False, False, False, None))]
        st.solver_s = 0
        st.tags = 'static'
        res.append(st)
    return res


class Alien(object):
    """A value of no relevant type."""

    def sym_isinstance(self, cs):
        return False


# ------------------------------------------------------------------ struct

class FieldType(object):
    def __init__(self, env, i):
        self.env, self.i = env, i

    @property
    def _OPTIONAL(self):
        return SymBool(self.env.opt(self.i))

    @property
    def _OPTIONAL_ALIGNMENT(self):
        if not cx().entails(self.env.opt(self.i)):
            raise Unsupported('_OPTIONAL_ALIGNMENT of a non-optional')
        return SymInt(self.env.oal(self.i))

    @property
    def _OPTIONAL_SIZE(self):
        if not cx().entails(self.env.opt(self.i)):
            raise Unsupported('_OPTIONAL_SIZE of a non-optional')
        return SymInt(self.env.osz(self.i))

    @property
    def _ALIGNMENT(self):
        return SymInt(self.env.al(self.i))

    @property
    def _SIZE(self):
        return SymInt(self.env.sz(self.i))

    @property
    def _DYNAMIC(self):
        return SymBool(self.env.dyn(self.i))

    @property
    def _UNLIMITED(self):
        return SymBool(self.env.unl(self.i))

    def sym_issubclass(self, cs):
        # whether the member is an array/bytes only decides where the partial alignment is mirrored
        if prophy.base_array.base_array in cs and bytes in cs:
            return SymBool(self.env.isarr(self.i))
        raise Unsupported('issubclass of an arbitrary member type')

    def __setattr__(self, n, v):
        if n in ('env', 'i'):
            object.__setattr__(self, n, v)
        elif n == '_PARTIAL_ALIGNMENT':
            pass
        else:
            raise Unsupported('write of %s' % n)

    def sym_eq(self, o):
        return isinstance(o, FieldType) and z3.simplify(self.i == o.i)


class Members(object):
    """n members with arbitrary wire attributes: what holds of every struct descriptor."""

    def __init__(self, c, split=False):
        f = z3.Function
        self.opt, self.dyn, self.unl, self.isarr = f('opt', I, B), f('dyn', I, B), f('unl', I, B), f('isarr', I, B)
        self.al, self.oal = f('align', I, I), f('opt_align', I, I)
        self.sz, self.osz = f('size', I, I), f('opt_size', I, I)
        self.pa, self.flen = f('partial', I, I), f('flen', I, I)
        self.n = c.int('n', 0)
        self.A = c.int('struct_align', 1)
        c.assume(is_align(self.A))
        self.split = split
        self.static = False
        self.more = None
        if split:
            sym.pick(self.A, sym.ALIGNS)

    def facts(self, i):
        cx().assume(z3.And(is_align(self.al(i)), is_align(self.oal(i)), is_align(self.pa(i)), self.wa(i) <= self.A,
                           self.pa(i) <= self.A, self.sz(i) >= 0, self.osz(i) >= 0, self.flen(i) >= 0))
        if self.static:
            cx().assume(z3.Not(self.dyn(i)))
        if self.more:
            self.more(i)
        if self.split and not z3.is_int_value(z3.simplify(i)):
            cx().branch(self.opt(i))
            sym.pick(self.wa(i), sym.ALIGNS)
            if cx().branch(self.dyn(i)):
                sym.pick(self.pa(i), sym.ALIGNS)

    def wa(self, i):
        return z3.If(self.opt(i), self.oal(i), self.al(i))

    def ws(self, i):
        return z3.If(self.opt(i), self.osz(i), self.sz(i))


class Field(object):
    def __init__(self, env, i, owner):
        self.env, self.i, self.owner = env, i, owner
        env.facts(i)
        self.type = FieldType(env, i)
        self.name = Tok('name', SymInt(i))

    @property
    def partial_alignment(self):
        if cx().branch(self.env.dyn(self.i)):
            return SymInt(self.env.pa(self.i))
        return None

    def encode_fcn(self, parent, type_, value, endianness):
        return self.owner.encode_member(self, parent, type_, value, endianness)

    def decode_fcn(self, parent, name, type_, data, pos, endianness, len_hints):
        return self.owner.decode_member(self, parent, name, type_, data, pos, endianness, len_hints)


class Log(object):
    """Ghost: the calls made in one loop iteration."""

    def __init__(self, what):
        self.what = what
        self.items = []
        self.obj = self

    def entry(self, lp):
        cx().record('%s: nothing is %s before the loop' % (lp.key, self.what), 'unknown' if self.items else 'proved')

    def havoc(self, lp):
        self.items = []

    def close(self, lp):
        ok = len(self.items) == 1 and sym.is_same(SymInt(self.items[0]), SymInt(lp.k))
        cx().record('%s: member k is %s exactly once in iteration k' % (lp.key, self.what),
                    'proved' if ok else 'unknown', repr(self.items))


def struct_spec(env, packed):
    LE = z3.Function('enclen', I, I)

    def P(n, a):
        return z3.IntVal(0) if packed else pad(n, a)

    def enc(k):
        k = z3.simplify(k)
        if z3.is_int_value(k) and k.as_long() == 0:
            return SymBytes([])
        cx().assume(LE(k) >= 0)
        return SymBytes.op('Enc', (SymInt(k),), LE(k))

    def enc_next(k):
        """Enc(k+1): pad to the member's alignment, the member, after a dynamic one pad to the next block's alignment."""
        e = enc(k)
        n0 = e.length()
        p1 = P(n0, env.wa(k))
        n1 = n0 + p1 + env.flen(k)
        p2 = z3.If(env.dyn(k), P(n1, env.pa(k)), z3.IntVal(0))
        return e + SymBytes.zero(p1) + SymBytes.op('F', (SymInt(k),), env.flen(k)) + SymBytes.zero(p2)
    return P, enc, enc_next


class EncodeOwner(object):
    def __init__(self, c, env, fname):
        self.env, self.fname = env, fname
        self.endianness = order(c)
        self.log = Log('encoded')

    def encode_member(self, f, parent, type_, value, endianness):
        """Contract of encode_fcn: the canonical encoding of member i's value."""
        c = cx()
        sym.same('%s: member is encoded as its own type' % self.fname, type_, f.type)
        sym.same('%s: member value is its own value' % self.fname, value, Tok('value', SymInt(f.i)))
        c.record('%s: byte order is passed through' % self.fname, 'proved' if endianness is self.endianness else 'refuted',
                 'got %r' % (endianness,))
        c.record('%s: parent is the message' % self.fname, 'proved' if parent is self.msg else 'unknown')
        self.log.items.append(f.i)
        return SymBytes.op('F', (SymInt(f.i),), self.env.flen(f.i))


def msg_getattr(self, name, *d):
    if isinstance(name, Tok) and name.name_ == 'name':
        return Tok('value', *name.args_)
    if isinstance(name, str):
        return getattr(self, name, *d)
    raise Unsupported('getattr %r' % (name,))


def qual(fn):
    return fn.__qualname__.replace('<locals>.', '')


def struct_encode(packed):
    W = world()
    K = prophy.composite.struct_packed if packed else prophy.composite.struct
    M = W.classes[K]
    fname = 'prophy.composite.%s.encode' % K.__name__
    plan = LoopPlan()

    def run(c):
        env = Members(c)
        own = EncodeOwner(c, env, fname)
        S = type('S', (M,), {'sym_getattr': msg_getattr, '_ALIGNMENT': SymInt(env.A),
                             '_descriptor': SymSeq(env.n, lambda i: Field(env, i, own), 'descriptor')})
        own.msg = S.__new__(S)
        P, enc, enc_next = struct_spec(env, packed)
        plan.cands = lambda lp: [
            Cand('the canonical encoding of the members so far', enc, enc_next),
            Cand('the length of that encoding', lambda k: SymInt(enc(k).length()), lambda k: SymInt(enc_next(k).length()))]
        plan.heap = lambda lp: [own.log]
        r = own.msg.encode(own.endianness)
        e = enc(env.n)
        c.outcome = 'return'
        sym.same('%s: result is the canonical encoding' % fname, r, e + SymBytes.zero(P(e.length(), env.A)))
    r = xform.verify(fname, run, {qual(K.encode): plan}, ('return',))
    r.tags = 'enc'
    return r


class DecodeOwner(object):
    def __init__(self, c, env, fname, total):
        self.env, self.fname, self.total = env, fname, total
        self.endianness = order(c)
        self.log = Log('decoded')
        self.hints = None

    def decode_member(self, f, parent, name, type_, data, pos, endianness, len_hints):
        c = cx()
        sym.same('%s: member is decoded as its own type' % self.fname, type_, f.type)
        sym.same('%s: member is stored under its own name' % self.fname, name, f.name)
        c.record('%s: byte order is passed through' % self.fname, 'proved' if endianness is self.endianness else 'refuted')
        c.record('%s: parent is the message' % self.fname, 'proved' if parent is self.msg else 'unknown')
        c.record('%s: the data is passed through' % self.fname, 'proved' if data is self.data else 'unknown')
        lp = max(c.loops.values(), key=lambda l: l.index) if c.loops else None
        c.record('%s: one dictionary of array lengths is shared by all members' % self.fname,
                 'proved' if isinstance(len_hints, SymDict) and not len_hints.writes and lp is not None
                 and len_hints.epoch < lp.index else 'unknown', repr(len_hints))
        self.log.items.append(f.i)
        if self.total:
            c.prove('%s: position passed to members is not negative' % self.fname, i_term(pos) >= 0)
            if c.choose('member rejects'):
                raise ProphyError('member')
            return SymInt(c.int('consumed', 0))
        sym.same('%s: member is decoded at its canonical offset' % self.fname, pos, SymInt(self.offset(f.i)), kind='inv')
        return SymInt(self.env.flen(f.i))


def struct_decode(packed, total):
    W = world()
    K = prophy.composite.struct_packed if packed else prophy.composite.struct
    M = W.classes[K]
    fname = 'prophy.composite.%s._decode_impl' % K.__name__
    plan = LoopPlan()

    def run(c):
        env = Members(c, split=not packed and not total)
        own = DecodeOwner(c, env, fname, total)
        S = type('S', (M,), {'_ALIGNMENT': SymInt(env.A),
                             '_descriptor': SymSeq(env.n, lambda i: Field(env, i, own), 'descriptor')})
        own.msg = S.__new__(S)
        P, enc, enc_next = struct_spec(env, packed)
        start = c.int('start', 0)
        terminal = c.choose('terminal')
        if total:
            own.data, n = any_data(c)
        else:
            # precondition: the message starts at a multiple of its alignment
            q = c.int('q', 0)
            for k in sym.ALIGNS[1:]:
                c.assume(z3.Implies(env.A == k, start == k * q))
            e = enc(env.n)
            m = c.int('post', 0)
            if terminal:
                c.assume(m == 0)
            total_len = e.length() + P(e.length(), env.A)
            own.data = opaque('D', start + total_len + m)
            own.offset = lambda k: start + enc(k).length() + P(enc(k).length(), env.wa(k))
            plan.cands = lambda lp: [Cand('start plus the length of the canonical encoding so far',
                                          lambda k: SymInt(start + enc(k).length()),
                                          lambda k: SymInt(start + enc_next(k).length())),
                                     Cand('the length of the canonical encoding so far',
                                          lambda k: SymInt(enc(k).length()), lambda k: SymInt(enc_next(k).length()))]
        plan.heap = lambda lp: [own.log]
        what, r = caught(c, fname, lambda: own.msg._decode_impl(own.data, SymInt(start), own.endianness, terminal))
        if not total:
            c.record('%s: accepts the canonical encoding' % fname, 'proved' if what == 'return' else 'refuted',
                     '%s\npath %s' % (r, c.pc[-12:]))
            if what == 'return':
                sym.same('%s: consumes exactly the canonical encoding' % fname, r, SymInt(total_len))
        elif what == 'return':
            c.prove('%s: consumed size is not negative' % fname, i_term(r) >= 0)
            if terminal:
                c.prove('%s: the whole input is consumed' % fname, i_term(r) + start >= n)
    r = xform.verify(fname, run, {qual(K._decode_impl): plan}, ('return', 'ProphyError') if total else ('return',))
    r.tags = 'total' if total else 'dec'
    return r


def struct_public_decode():
    """decode() is _decode_impl at position 0, terminal."""
    W = world()
    res = []
    for K in (prophy.composite.struct, prophy.composite.union):
        M = W.classes[K]
        fname = 'prophy.composite.%s.decode' % K.__name__

        def run(c):
            e = order(c)
            d, _ = any_data(c)
            calls = []

            def impl(self, data, pos, endianness, terminal):
                calls.append((data is d, pos, endianness, terminal))
                return SymInt(c.int('consumed', 0))
            S = type('S', (M,), {'_decode_impl': impl})
            S.__new__(S).decode(d, e)
            c.outcome = 'return'
            c.record('%s: decodes the whole input from position 0' % fname,
                     'proved' if calls == [(True, 0, e, True)] else 'unknown', repr(calls))
        r = xform.verify(fname, run, {}, ('return',))
        r.tags = 'dec total'
        res.append(r)
    return res


# ------------------------------------------------------------------ arrays

class ElemType(object):
    """The element type of an array: scalar (size 1, 2, 4, 8) or composite."""

    def __init__(self, c, composite, dynamic=False, split=True):
        self.composite = composite
        self._SIZE = SymInt(c.int('elemsize', 1))
        if not composite and split:
            sym.pick(self._SIZE.t, sym.ALIGNS)
            self._SIZE = SymInt(sym.conc(self._SIZE.t))
        self._DYNAMIC = dynamic
        self._UNLIMITED = self._OPTIONAL = False
        self._ALIGNMENT = SymInt(c.int('elemalign', 1))
        self.elen = z3.Function('elemlen', I, I)
        self._DEFAULT = Tok('default')
        self.mode = 'encode'

    def sym_issubclass(self, cs):
        return self.composite and (prophy.composite.struct in cs or prophy.composite.union in cs)

    def len_of(self, i):
        if self._DYNAMIC:
            cx().assume(self.elen(i) >= 1)
            return self.elen(i)
        return self._SIZE.t

    def enc(self, i):
        return SymBytes.op('E', (SymInt(i),), self.len_of(i))

    # contracts of the element type's own functions
    def _encode(self, value, endianness):
        c = cx()
        if not (isinstance(value, Tok) and value.name_ == 'elem'):
            raise Unsupported('encode of %r' % value)
        c.record('%s: byte order is passed through' % self.fname, 'proved' if endianness is self.endianness else 'refuted')
        return self.enc(i_term(value.args_[0]))

    def _check(self, value):
        if self.mode == 'total' and cx().choose('check rejects'):
            raise ProphyError('value')
        return value

    def _decode(self, data, pos, endianness):
        c = cx()
        c.record('%s: byte order is passed through' % self.fname, 'proved' if endianness is self.endianness else 'refuted')
        c.record('%s: the data is passed through' % self.fname, 'proved' if data is self.data else 'unknown')
        if self.mode == 'total':
            if not c.branch(i_term(pos) + self._SIZE.t <= self.datalen):
                raise ProphyError('too few bytes')
            return Tok('decoded', pos), self._SIZE
        k = lastloop().k
        sym.same('%s: element is decoded at its canonical offset' % self.fname, pos,
                 SymInt(self.pos0 + k * self._SIZE.t), kind='inv')
        return Tok('elem', SymInt(k)), self._SIZE

    def __call__(self):
        return FreshElem(self)


def lastloop():
    ls = cx().loops
    if not ls:
        raise Unsupported('called outside a loop')
    return ls[max(ls)]


class Elem(Tok):
    """A composite element (opaque message)."""

    def __init__(self, tp, i):
        Tok.__init__(self, 'elem', SymInt(i))
        self.tp, self.i = tp, i

    def encode(self, endianness):
        cx().record('%s: byte order is passed through' % self.tp.fname,
                    'proved' if endianness is self.tp.endianness else 'refuted')
        return self.tp.enc(self.i)

    def _decode_impl(self, data, pos, endianness, terminal):
        return composite_decode(self.tp, self, data, pos, endianness, terminal)


class FreshElem(object):
    """A newly constructed composite element; after decoding it is the element whose encoding it read."""

    def __init__(self, tp):
        self.tp = tp
        self.i = None

    def _decode_impl(self, data, pos, endianness, terminal):
        r = composite_decode(self.tp, self, data, pos, endianness, terminal)
        if self.i is not None:
            raise Unsupported('element decoded twice')
        self.i = lastloop().k
        return r

    def sym_eq(self, o):
        if isinstance(o, Tok) and o.name_ == 'elem' and self.i is not None:
            return z3.simplify(self.i == i_term(o.args_[0]))
        return False

    def sym_isinstance(self, cs):
        return prophy.composite.struct in cs


def composite_decode(tp, elem, data, pos, endianness, terminal):
    c = cx()
    c.record('%s: byte order is passed through' % tp.fname, 'proved' if endianness is tp.endianness else 'refuted')
    c.record('%s: the data is passed through' % tp.fname, 'proved' if data is tp.data else 'unknown')
    c.record('%s: elements are not terminal' % tp.fname, 'proved' if terminal is False else 'refuted')
    if tp.mode == 'total':
        c.prove('%s: position passed to elements is not negative' % tp.fname, i_term(pos) >= 0, 'inv')
        if c.choose('element rejects'):
            raise ProphyError('element')
        r = c.int('consumed', 1)
        return SymInt(r)
    k = lastloop().k
    if isinstance(elem, Elem):
        sym.same('%s: element k is decoded in iteration k' % tp.fname, SymInt(elem.i), SymInt(k), kind='inv')
    sym.same('%s: element is decoded at its canonical offset' % tp.fname, pos, SymInt(tp.pos0 + tp.before(k)), kind='inv')
    return SymInt(tp.len_of(k))


class HeapList(object):
    """Loop invariant of a list held by an object: its contents before iteration k."""

    def __init__(self, get, cand, name):
        self.get, self.cand, self.name = get, cand, name
        self.obj = get()

    def entry(self, lp):
        ok = sym.is_same(self.obj, self.cand(z3.IntVal(0)))
        cx().record('%s invariant %s holds on entry' % (lp.key, self.name), 'proved' if ok else 'unknown',
                    repr(self.obj))

    def havoc(self, lp):
        self.obj.segs = self.cand(lp.k).segs

    def close(self, lp):
        ok = self.get() is self.obj and sym.is_same(self.obj, self.cand(z3.simplify(lp.k + 1)))
        cx().record('%s invariant %s is inductive' % (lp.key, self.name), 'proved' if ok else 'unknown', repr(self.get()))


def array_class(c, composite, shape, dynamic_elem=False, split=True):
    """Runs the real array() for an element type and a shape: fixed, limited, bound (dynamic) or greedy."""
    W = world()
    f = W.fn(prophy.container.array)
    tp = ElemType(c, composite, dynamic_elem, split)
    size = c.int('size', 1)
    kw = {}
    if shape in ('fixed', 'limited'):
        kw['size'] = SymInt(size)
    if shape in ('limited', 'bound'):
        kw['bound'] = 'numOf'
    return f(tp, **kw), tp, size


def arr_instance(A, tp, n, elems=True):
    a = A.__new__(A)
    if tp.composite:
        fam = SymSeq(n, lambda i: Elem(tp, i), 'values')
    else:
        fam = SymSeq(n, lambda i: Tok('elem', SymInt(i)), 'values')
    a._values = SymList([('seg', fam, z3.IntVal(0), n)]) if elems else SymList()
    return a, fam


def base_array_iteration():
    """for x in array visits array._values in order: the sequence protocol over the real __getitem__/__len__."""
    K = prophy.base_array.base_array
    M = world().classes[K]

    def sym_seq(self):
        t = type(self)
        if '__iter__' in {n for k in t.__mro__[:-1] for n in k.__dict__}:
            it = t.__iter__
            real = getattr(it, '_real', None)
            raise Unsupported('array defines __iter__ (%r)' % real)
        return SymSeq(xform.v_len(self._values), lambda i: t.__getitem__(self, SymInt(i)), 'array')
    M.sym_seq = sym_seq


def array_encode():
    base_array_iteration()
    res = []
    for composite in (False, True):
        for shape in ('fixed', 'limited', 'bound', 'greedy'):
            for dyn in (False, True):
                if dyn and (not composite or shape in ('fixed', 'limited')):
                    continue
                fname = 'prophy.container.%s_%s_array._encode_impl' % (
                    'fixed' if shape == 'fixed' else 'bound', 'composite' if composite else 'scalar')
                what = '%s (%s%s)' % (fname, shape, ' of dynamic' if dyn else '')

                def run(c):
                    A, tp, size = array_class(c, composite, shape, dyn)
                    tp.fname, tp.endianness = what, order(c)
                    n = c.int('n', 0)
                    if shape == 'fixed':
                        c.assume(n == size)
                    if shape == 'limited':
                        c.assume(n <= size)
                        c.assume(n * tp._SIZE.t <= size * tp._SIZE.t)
                    a, fam = arr_instance(A, tp, n)
                    r = a._encode_impl(tp.endianness)
                    c.outcome = 'return'
                    want = sym.cat_rope(n, tp.enc)
                    if shape == 'limited':
                        want = want + SymBytes.zero((size - n) * tp._SIZE.t)
                    sym.same('%s: elements in order, each canonical%s' % (
                        what, ', zero filled to the limit' if shape == 'limited' else ''), r, want)
                    sym.same('%s: declared size' % what, A._SIZE,
                             SymInt(size * tp._SIZE.t) if shape in ('fixed', 'limited') else 0)
                r = xform.verify(fname, run, {}, ('return',))
                r.tags = 'enc'
                res.append(r)
    return res


def scalar_array_plans(tp, pos0, total, greedy):
    fam = SymSeq(z3.IntVal(0), lambda i: Tok('elem', SymInt(i)), 'elems')
    plan = LoopPlan()

    def vals(k):
        if total:
            f2 = SymSeq(k, lambda i: Tok('decoded', SymInt(pos0 + i * tp._SIZE.t)), 'elems')
            return SymList([('seg', f2, z3.IntVal(0), k)])
        return SymList([('seg', fam, z3.IntVal(0), k)])
    plan.cands = lambda lp: [Cand('k elements', lambda k: SymInt(z3.simplify(k * tp._SIZE.t))),
                             Cand('the first k elements', vals)]
    if total:
        plan.inv = lambda lp, k: z3.Or(k == 0, pos0 + k * tp._SIZE.t <= tp.datalen)
    return {'decode_scalar_array': plan}


def scalar_array_decode():
    base_array_iteration()
    res = []
    for shape in ('fixed', 'limited', 'bound', 'greedy'):
        for total in (False, True):
            fname = 'prophy.container.%s_scalar_array._decode_impl' % ('fixed' if shape == 'fixed' else 'bound')
            what = '%s (%s)' % (fname, shape)
            plans = {}

            def run(c):
                A, tp, size = array_class(c, False, shape)
                tp.fname, tp.endianness = what, order(c)
                tp.mode = 'total' if total else 'dec'
                pos = c.int('pos', 0)
                n = c.int('n', 0)
                S = tp._SIZE.t
                if shape == 'fixed':
                    c.assume(n == size)
                if shape == 'limited':
                    if not total:
                        c.assume(n <= size)
                    c.assume(size * S >= 0)
                occupied = size * S if shape in ('fixed', 'limited') else n * S
                if total:
                    tp.data, tp.datalen = any_data(c)
                else:
                    m = c.int('post', 0)
                    if shape == 'greedy':
                        c.assume(m == 0)
                    tp.data = opaque('D', pos + occupied + m)
                    tp.datalen = pos + occupied + m
                tp.pos0 = pos
                xform.PLANS.update(keep(plans, scalar_array_plans(tp, pos, total, shape == 'greedy')))
                a, fam = arr_instance(A, tp, size if shape == 'fixed' else c.int('old', 0))
                hint = None if shape in ('greedy', 'fixed') else SymInt(n)
                kind, r = caught(c, what, lambda: a._decode_impl(tp.data, SymInt(pos), tp.endianness, hint))
                if total:
                    if kind == 'return':
                        c.prove('%s: consumes bytes that exist' % what, z3.And(
                            i_term(r) >= 0, z3.Or(i_term(r) == 0, pos + i_term(r) <= tp.datalen)), 'exact')
                        if shape in ('bound', 'limited'):
                            sym.same('%s: as many elements as the counter says' % what, xform.v_len(a._values), SymInt(n))
                        if shape == 'fixed':
                            sym.same('%s: length is unchanged' % what, xform.v_len(a._values), SymInt(size))
                else:
                    c.record('%s: accepts the canonical encoding' % what, 'proved' if kind == 'return' else 'refuted',
                             '%r\npath %s' % (r, c.pc[-12:]))
                    if kind == 'return':
                        sym.same('%s: consumes exactly the encoding' % what, r, SymInt(occupied))
                        want = SymSeq(n, lambda i: Tok('elem', SymInt(i)), 'elems')
                        sym.same('%s: restores the elements in order' % what, a._values,
                                 SymList([('seg', want, z3.IntVal(0), n)]))
            r = xform.verify(fname, run, plans, ('return', 'ProphyError') if total else ('return',))
            r.tags = 'total' if total else 'dec'
            res.append(r)
    return res


def keep(store, fresh):
    """Plans are rebuilt on every path; what was ruled out on earlier attempts is carried over."""
    for k, p in fresh.items():
        if k in store:
            p.ruled_out = store[k].ruled_out
        store[k] = p
    return store


def composite_array_decode():
    base_array_iteration()
    res = []
    for shape in ('fixed', 'limited', 'bound', 'greedy'):
        for dyn in (False, True):
            if dyn and shape in ('fixed', 'limited'):
                continue
            for total in (False, True):
                cls = 'fixed' if shape == 'fixed' else 'bound'
                fname = 'prophy.container.%s_composite_array._decode_impl' % cls
                what = '%s (%s%s)' % (fname, shape, ' of dynamic' if dyn else '')
                plans = {}

                def run(c):
                    A, tp, size = array_class(c, True, shape, dyn)
                    tp.fname, tp.endianness = what, order(c)
                    tp.mode = 'total' if total else 'dec'
                    pos, n = c.int('pos', 0), c.int('n', 0)
                    S = tp._SIZE.t
                    if shape == 'fixed':
                        c.assume(n == size)
                    if shape == 'limited':
                        c.assume(size * S >= 0)
                        if not total:
                            c.assume(z3.And(n <= size, n * S <= size * S))
                    LE = z3.Function('elems_len', I, I)
                    if dyn or shape == 'greedy':
                        # LE(k): encoded length of the first k elements (recursive definition, unfolded where used)
                        c.assume(LE(0) == 0)
                        c.assume(mono(LE, z3.IntVal(0), n))

                        def nxt(k):
                            cx().assume(LE(k + 1) == LE(k) + tp.len_of(k))
                            return LE(k) + tp.len_of(k)
                        tp.before = lambda k: LE(k)
                        every = LE(n)
                    else:
                        tp.before = lambda k: k * S
                        nxt = lambda k: k * S + S
                        every = n * S
                    occupied = size * S if shape in ('fixed', 'limited') else every
                    if total:
                        tp.data, tp.datalen = any_data(c)
                    else:
                        m = c.int('post', 0)
                        if shape == 'greedy':
                            c.assume(m == 0)
                        tp.datalen = pos + occupied + m
                        tp.data = opaque('D', tp.datalen)
                    tp.pos0 = pos
                    a, fam = arr_instance(A, tp, size if shape == 'fixed' else c.int('old', 0))
                    elems = SymSeq(n, lambda i: Tok('elem', SymInt(i)), 'elems')

                    def first(k):
                        return SymList([('seg', elems, z3.IntVal(0), k)])
                    plan = LoopPlan(whiles=shape == 'greedy')
                    if not total:
                        plan.cands = lambda lp: [Cand('the encoded length of the first k elements',
                                                      lambda k: SymInt(tp.before(k)), lambda k: SymInt(nxt(k)))]
                        if shape != 'fixed':
                            plan.heap = lambda lp: [HeapList(lambda: a._values, first, 'the first k elements')]
                        if shape == 'greedy':
                            # before iteration k: at most n elements were read; bytes remain exactly while k < n
                            def inv(lp, k):
                                cx().assume(mono(LE, k, n))
                                return z3.And(k <= n, z3.Implies(k == n, LE(k) == every), z3.Implies(k < n, LE(k) < every))
                            plan.inv = inv
                    elif shape != 'fixed':
                        plan.heap = lambda lp: [LenList(lambda: a._values, 'one element per iteration')]
                    xform.PLANS.update(keep(plans, {qual(getattr(prophy.container, cls + '_composite_array')._decode_impl): plan}))
                    hint = None if shape in ('greedy', 'fixed') else SymInt(n)
                    kind, r = caught(c, what, lambda: a._decode_impl(tp.data, SymInt(pos), tp.endianness, hint))
                    if total:
                        if kind == 'return':
                            c.prove('%s: consumed size is not negative' % what, i_term(r) >= 0)
                            if shape in ('bound', 'limited'):
                                sym.same('%s: as many elements as the counter says' % what, xform.v_len(a._values), SymInt(n))
                    else:
                        c.record('%s: accepts the canonical encoding' % what, 'proved' if kind == 'return' else 'refuted',
                                 '%r\npath %s' % (r, c.pc[-12:]))
                        if kind == 'return':
                            sym.same('%s: consumes exactly the encoding' % what, r, SymInt(occupied))
                            if shape != 'fixed':
                                sym.same('%s: restores the elements in order' % what, a._values, first(n))
                r = xform.verify(fname, run, plans, ('return', 'ProphyError') if total else ('return',))
                r.tags = 'total' if total else 'dec'
                res.append(r)
    return res


def mono(LE, k, n):
    """Instance of lemma_mono."""
    return z3.And(z3.Implies(z3.And(k >= 0, k < n), LE(k) < LE(n)), LE(n) >= 0)


def lemma_mono():
    """Prefix lengths grow strictly: by induction over the prefix length m."""
    name = 'lemma: prefix lengths of non-empty elements grow strictly'

    def run(c):
        LE, ln = z3.Function('elems_len', I, I), z3.Function('elemlen', I, I)
        m, k = c.int('m', 0), c.int('k', 0)
        q = z3.Int('q')
        c.assume(LE(0) == 0)
        c.prove(name + ' (base)', z3.Implies(k < 0, LE(k) < LE(0)))
        c.assume(z3.And(ln(m) >= 1, LE(m + 1) == LE(m) + ln(m), LE(m) >= 0))
        c.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < m), LE(q) < LE(m)), patterns=[LE(q)]))
        c.prove(name + ' (step)', z3.And(z3.Implies(k < m + 1, LE(k) < LE(m + 1)), LE(m + 1) >= 0))
        c.outcome = 'return'
    r = xform.verify('lemma', run, {}, ('return',))
    r.tags = 'dec'
    return r


class LenList(object):
    """Loop invariant of a list held by an object: one more entry per iteration."""

    def __init__(self, get, name):
        self.get, self.name, self.obj = get, name, get()

    def entry(self, lp):
        self.n0 = self.obj.length()

    def havoc(self, lp):
        n = z3.simplify(self.n0 + lp.k)
        self.obj.segs = [('seg', SymSeq(n, lambda i: Tok('any', SymInt(i)), 'any'), z3.IntVal(0), n)]

    def close(self, lp):
        ok = self.get() is self.obj and cx().entails(self.obj.length() == self.n0 + lp.k + 1)
        cx().record('%s invariant %s is inductive' % (lp.key, self.name), 'proved' if ok else 'unknown', repr(self.get()))


# ------------------------------------------------------------------ bytes

BYTES_SHAPES = ('fixed', 'limited', 'bound', 'greedy')


def bytes_class(c, shape):
    f = world().fn(prophy.composite.bytes_)
    size = c.int('size', 1)
    kw = {}
    if shape in ('fixed', 'limited'):
        kw['size'] = SymInt(size)
    if shape in ('limited', 'bound'):
        kw['bound'] = 'numOf'
    return f(**kw), size


def bytes_codec():
    res = []
    for shape in BYTES_SHAPES:
        base = 'prophy.composite.bytes_'
        what = '%s (%s)' % (base, shape)

        def value(c, size):
            n = c.int('n', 0)
            if shape == 'fixed':
                c.assume(n == size)
            if shape == 'limited':
                c.assume(n <= size)
            return opaque('V', n), n

        def r_enc(c):
            K, size = bytes_class(c, shape)
            v, n = value(c, size)
            r = K._encode(v)
            c.outcome = 'return'
            sym.same('%s._encode: the bytes%s' % (what, ', zero filled to the limit' if shape == 'limited' else ''), r,
                     v + SymBytes.zero(size - n) if shape == 'limited' else v)
            sym.same('%s: declared size' % what, K._SIZE, SymInt(size) if shape in ('fixed', 'limited') else 0)
            c.record('%s: alignment 1, dynamic iff unsized' % what, 'proved' if K._ALIGNMENT == 1 and
                     bool(K._DYNAMIC) == (shape in ('bound', 'greedy')) and bool(K._UNLIMITED) == (shape == 'greedy')
                     else 'refuted')

        def r_dec(c):
            K, size = bytes_class(c, shape)
            v, n = value(c, size)
            pos = c.int('pos', 0)
            enc = v + SymBytes.zero(size - n) if shape == 'limited' else v
            d = opaque('Pre', pos) + enc if shape == 'greedy' else buffer(c, pos, enc)
            kind, r = caught(c, what + '._decode', lambda: K._decode(
                d, SymInt(pos), SymInt(n) if shape in ('limited', 'bound') else None))
            c.record('%s._decode: accepts the canonical encoding' % what, 'proved' if kind == 'return' else 'refuted',
                     '%r' % (r,))
            if kind == 'return':
                sym.same('%s._decode: restores the bytes' % what, r[0], v)
                sym.same('%s._decode: consumes exactly the encoding' % what, r[1], SymInt(enc.length()))

        def r_total(c):
            K, size = bytes_class(c, shape)
            pos, n = c.int('pos', 0), c.int('n', 0)
            d, ln = any_data(c)
            c.assume(pos <= ln)
            kind, r = caught(c, what + '._decode', lambda: K._decode(
                d, SymInt(pos), SymInt(n) if shape in ('limited', 'bound') else None))
            if kind == 'return':
                c.prove('%s._decode: consumes bytes that exist' % what, z3.And(i_term(r[1]) >= 0, pos + i_term(r[1]) <= ln))

        def r_check(c):
            K, size = bytes_class(c, shape)
            n = c.int('n', 0)
            if c.choose('bytes'):
                v = opaque('V', n)
                kind, r = caught(c, what + '._check', lambda: K._check(v))
                fits = n <= size if shape in ('fixed', 'limited') else z3.BoolVal(True)
                if kind == 'return':
                    c.prove('%s._check: accepts only bytes that fit' % what, fits)
                    sym.same('%s._check: stores the bytes%s' % (what, ' zero filled' if shape == 'fixed' else ''), r,
                             v + SymBytes.zero(size - n) if shape == 'fixed' else v)
                else:
                    c.prove('%s._check: rejects only bytes that do not fit' % what, z3.Not(fits))
            else:
                kind, r = caught(c, what + '._check', lambda: K._check(Alien()))
                c.record('%s._check: rejects other types' % what, 'proved' if kind == 'ProphyError' else 'refuted')
        for tag, run, exp in (('enc', r_enc, ('return',)), ('dec', r_dec, ('return',)),
                              ('total', r_total, ('return',)), ('check', r_check, ('return', 'ProphyError'))):
            r = xform.verify(base, run, {}, exp)
            r.tags = tag
            res.append(r)
    return res


# ------------------------------------------------------------------ sizer (container_len)

class NumType(object):
    """The integer type of a sizer member, by contract of scalar encode/decode."""

    @staticmethod
    def make(c, shift=0):
        lo, hi, size = c.int('lo', None, 0), c.int('hi', 1), c.int('size', 1)
        ns = {'lo': lo, 'hi': hi, 'size': size}

        def _encode(value, endianness):
            if not cx().branch(z3.And(i_term(value) >= lo, i_term(value) <= hi)):
                raise StructModule.error('out of range')
            return SymBytes.op('N', (endianness, SymInt(i_term(value))), size)

        def _decode(data, pos, endianness):
            data = SymBytes.of(data)
            if not cx().branch(i_term(pos) + size <= data.length()):
                raise ProphyError('too few bytes')
            ch = sym.norm(data[pos:SymInt(i_term(pos) + size)].chunks)
            if len(ch) == 1 and ch[0][0] == 'op' and ch[0][1] == 'N' and ch[0][2][0] == endianness:
                return ch[0][2][1], SymInt(size)
            return SymInt(cx().int('decoded', lo, hi)), SymInt(size)
        ns['_encode'] = staticmethod(_encode)
        ns['_decode'] = staticmethod(_decode)
        return type('Num', (), ns)


class BoundParent(object):
    def __init__(self, c, names, lens):
        self.lens = lens

    def sym_getattr(self, name, *d):
        if isinstance(name, Tok) and name.name_ == 'array':
            n = self.lens(i_term(name.args_[0]))
            cx().assume(n >= 0)
            return SymSeq(n, lambda i: Tok('elem', SymInt(i)), 'array')
        raise Unsupported('getattr %r' % (name,))


def sizer():
    base = 'prophy.generators.build_container_length_field'
    f = world().fn(prophy.generators.build_container_length_field)
    res = []

    def make(c):
        T = NumType.make(c)
        shift = c.int('shift', 0)
        K = f(T, Tok('array', SymInt(0)), SymInt(shift))
        return K, T, shift

    def r_enc(c):
        K, T, shift = make(c)
        e = order(c)
        v = c.int('n', 0)
        c.assume(v + shift <= T.hi)
        r = K._encode(SymInt(v), e)
        c.outcome = 'return'
        sym.same('container_len._encode: the length plus the shift, as the sizer type', r,
                 SymBytes.op('N', (e, SymInt(v + shift)), T.size))

    def r_dec(c):
        K, T, shift = make(c)
        e = order(c)
        v, pos = c.int('n', 0), c.int('pos', 0)
        c.assume(v + shift <= 65536)
        c.assume(v + shift <= T.hi)
        d = buffer(c, pos, SymBytes.op('N', (e, SymInt(v + shift)), T.size))
        kind, r = caught(c, 'container_len._decode', lambda: K._decode(d, SymInt(pos), e))
        c.record('container_len._decode: accepts lengths up to the guard', 'proved' if kind == 'return' else 'refuted')
        if kind == 'return':
            sym.same('container_len._decode: restores the length', r, (SymInt(v), SymInt(T.size)))

    def r_total(c):
        K, T, shift = make(c)
        e = order(c)
        pos = c.int('pos', 0)
        d, n = any_data(c)
        kind, r = caught(c, 'container_len._decode', lambda: K._decode(d, SymInt(pos), e))
        if kind == 'return':
            c.prove('container_len._decode: length is neither negative nor above the guard',
                    z3.And(i_term(r[0]) >= 0, i_term(r[0]) <= 65536))

    def r_size(c):
        K, T, shift = make(c)
        m = c.int('arrays', 1)
        lens = z3.Function('arraylen', I, I)
        K._BOUND = SymSeq(m, lambda i: Tok('array', SymInt(i)), 'bound')
        K.join = None
        q = z3.Int('q')
        try:
            r = K.evaluate_size(BoundParent(c, None, lens))
            c.outcome = 'return'
            k = c.int('any', 0)
            c.assume(k < m)
            c.prove('container_len.evaluate_size: the common length of the bound arrays', i_term(r) == lens(k))
        except ProphyError:
            c.outcome = 'ProphyError'
            c.prove('container_len.evaluate_size: rejects only differing lengths',
                    z3.Not(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < m), lens(q) == lens(0)))))
    for tag, run, exp in (('enc', r_enc, ('return',)), ('dec', r_dec, ('return',)), ('total', r_total, ('return', 'ProphyError')),
                          ('enc', r_size, ('return', 'ProphyError'))):
        r = xform.verify(base, run, {}, exp)
        r.tags = tag
        res.append(r)
    return res


# ------------------------------------------------------------------ optional

def optional_type(c, composite):
    """Runs the real optional() over a fixed-size type."""
    f = world().fn(prophy.optional)

    def isub(cs):
        return composite and (prophy.composite.struct in cs or prophy.composite.union in cs)
    al, size = c.int('align', 1), c.int('size', 0)
    c.assume(is_align(al))
    T = type('T', (), {'_ALIGNMENT': SymInt(al), '_SIZE': SymInt(size), '_DYNAMIC': False, '_OPTIONAL': False,
                       'sym_issubclass': staticmethod(isub)})
    O = f(T)
    return O, T, al, size


class OneField(object):
    """A parent message with one member of interest; records what is stored."""

    def __init__(self):
        self.stores = []
        self.value = None

    def sym_setattr(self, name, v):
        self.stores.append((name, v))

    def sym_getattr(self, name, *d):
        if self.value is None:
            raise Unsupported('read of %r' % name)
        return self.value


def u32_stub(data_of=None):
    return world().fn(prophy.scalar.u32._encode), world().fn(prophy.scalar.u32._decode)


def optional_codec():
    W = world()
    enc, dec = W.fn(prophy.descriptor.encode_optional), W.fn(prophy.descriptor.decode_optional)
    res = []

    def mx(a):
        return z3.If(a > 4, a, z3.IntVal(4))

    def setup(c, composite):
        O, T, al, size = optional_type(c, composite)
        ue, ud = u32_stub()
        O._optional_type = type('u32', (), {'_encode': staticmethod(ue), '_decode': staticmethod(ud)})
        return O, T, al, size

    def r_attr(c):
        O, T, al, size = optional_type(c, c.choose('composite'))
        c.outcome = 'return'
        sym.same('optional(): alignment covers the flag', O._OPTIONAL_ALIGNMENT, SymInt(mx(al)))
        sym.same('optional(): size is flag, padding and value', O._OPTIONAL_SIZE, SymInt(mx(al) + size))
        c.record('optional(): marked optional, flag is u32', 'proved' if O._OPTIONAL is True and
                 O._optional_type is prophy.scalar.u32 else 'refuted')

    def r_enc(c):
        O, T, al, size = setup(c, c.choose('composite'))
        e = order(c)
        parent = OneField()

        def inner(p, t, v, en):
            cx().record('encode_optional: value is encoded as the base type in the same order',
                        'proved' if p is parent and t is T and isinstance(v, Tok) and v.name_ == 'x' and en is e else 'unknown')
            return SymBytes.op('E', (), size)
        O._encode = staticmethod(inner)
        present = c.choose('present')
        r = enc(parent, O, Tok('x') if present else None, e)
        c.outcome = 'present' if present else 'absent'
        if present:
            want = pk(e + 'I', SymInt(1)) + SymBytes.zero(mx(al) - 4) + SymBytes.op('E', (), size)
        else:
            want = SymBytes.zero(mx(al) + size)
        sym.same('encode_optional: flag, padding, value or zeros', r, want)

    def r_dec(c):
        composite = c.choose('composite')
        O, T, al, size = setup(c, composite)
        e = order(c)
        present = c.choose('present')
        pos = c.int('pos', 0)
        parent = OneField()
        flag = pk(e + 'I', SymInt(1)) if present else SymBytes.zero(4)
        body = SymBytes.zero(mx(al) - 4) + (SymBytes.op('E', (), size) if present else SymBytes.zero(size))
        d = opaque('Pre', pos) + flag + body + opaque('Post', c.int('post', 0))
        calls = []

        def inner(p, nm, t, data, ps, en, hints):
            ok = p is parent and nm == 'm' and t is T and data is d and en is e
            cx().record('decode_optional: value is decoded as the base type', 'proved' if ok else 'unknown')
            sym.same('decode_optional: value is decoded after the padded flag', ps, SymInt(pos + mx(al)))
            calls.append(1)
            return SymInt(size)
        O._decode = staticmethod(inner)
        kind, r = caught(c, 'decode_optional', lambda: dec(parent, 'm', O, d, SymInt(pos), e, {}))
        c.record('decode_optional: accepts the canonical encoding', 'proved' if kind == 'return' else 'refuted')
        if kind != 'return':
            return
        c.outcome = 'present' if present else 'absent'
        sym.same('decode_optional: consumes flag, padding and value', r, SymInt(mx(al) + size))
        if present:
            c.record('decode_optional: a present value is decoded once', 'proved' if calls == [1] else 'unknown')
            c.record('decode_optional: a present composite is created first', 'proved' if parent.stores == (
                [('m', True)] if composite else []) else 'unknown', repr(parent.stores))
        else:
            c.record('decode_optional: absence is stored as None', 'proved' if parent.stores == [('m', None)] and not calls
                     else 'unknown', repr(parent.stores))

    def r_total(c):
        O, T, al, size = setup(c, c.choose('composite'))
        e = order(c)
        pos = c.int('pos', 0)
        d, n = any_data(c)
        parent = OneField()

        def inner(p, nm, t, data, ps, en, hints):
            cx().prove('decode_optional: position is not negative', i_term(ps) >= 0)
            if cx().choose('value rejects'):
                raise ProphyError('value')
            return SymInt(cx().int('consumed', 0))
        O._decode = staticmethod(inner)
        kind, r = caught(c, 'decode_optional', lambda: dec(parent, 'm', O, d, SymInt(pos), e, {}))
        if kind == 'return':
            c.prove('decode_optional: consumed size is not negative', i_term(r) >= 0)
    for tag, run, exp, fn in (('enc attr', r_attr, ('return',), 'prophy.optional.optional'),
                              ('enc', r_enc, ('present', 'absent'), 'prophy.descriptor.encode_optional'),
                              ('dec', r_dec, ('present', 'absent'), 'prophy.descriptor.decode_optional'),
                              ('total', r_total, ('return', 'ProphyError'), 'prophy.descriptor.decode_optional')):
        r = xform.verify(fn, run, {}, exp)
        r.tags = tag
        res.append(r)
    return res


# ------------------------------------------------------------------ descriptor functions

def descriptors():
    """The small functions between the struct loop and the types: each calls its type's codec with the right arguments."""
    W = world()
    D = prophy.descriptor
    res = []

    def one(name, tag, run, exp=('return',)):
        r = xform.verify('prophy.descriptor.' + name, run, {}, exp)
        r.tags = tag
        res.append(r)

    class T(object):
        pass

    def ok(c, what, cond, got=None):
        c.record(what, 'proved' if cond else 'unknown', repr(got))

    def enc_scalar(c):
        e = order(c)
        t = T()
        out = SymBytes.op('E', (), c.int('n', 0))
        calls = []
        t._encode = lambda *a: calls.append(a) or out
        r = W.fn(D.encode_scalar)(OneField(), t, 'v', e)
        c.outcome = 'return'
        ok(c, 'encode_scalar: the type encodes the value in the given order', r is out and calls == [('v', e)], calls)

    def enc_bytes(c):
        e = order(c)
        t = T()
        out = SymBytes.op('E', (), c.int('n', 0))
        calls = []
        t._encode = lambda *a: calls.append(a) or out
        r = W.fn(D.encode_bytes)(OneField(), t, 'v', e)
        c.outcome = 'return'
        ok(c, 'encode_bytes: the type encodes the value', r is out and calls == [('v',)], calls)

    def enc_comp(c):
        e = order(c)
        for nm, meth in (('encode_composite', 'encode'), ('encode_array', '_encode_impl')):
            v = T()
            out = SymBytes.op('E', (), c.int('n', 0))
            calls = []
            setattr(v, meth, lambda *a: calls.append(a) or out)
            r = W.fn(getattr(D, nm))(OneField(), T(), v, e)
            ok(c, '%s: the value encodes itself in the given order' % nm, r is out and calls == [(e,)], calls)
        c.outcome = 'return'

    def enc_delim(c):
        e = order(c)
        t, parent = T(), OneField()
        out = SymBytes.op('E', (), c.int('n', 0))
        n = SymInt(c.int('count', 0))
        sizes, calls = [], []
        t.evaluate_size = lambda *a: sizes.append(a) or n
        t._encode = lambda *a: calls.append(a) or out
        r = W.fn(D.encode_array_delimiter)(parent, t, None, e)
        c.outcome = 'return'
        ok(c, 'encode_array_delimiter: encodes the evaluated size', r is out and sizes == [(parent,)] and len(calls) == 1
           and calls[0][0] is n and calls[0][1] is e, calls)

    def dec_scalar(c):
        e = order(c)
        t, parent = T(), OneField()
        v, n = Tok('v'), SymInt(c.int('n', 0))
        d, pos = any_data(c)[0], SymInt(c.int('pos', 0))
        calls = []
        t._decode = lambda *a: calls.append(a) or (v, n)
        r = W.fn(D.decode_scalar)(parent, 'm', t, d, pos, e, {})
        c.outcome = 'return'
        ok(c, 'decode_scalar: stores the decoded value under the member name', len(parent.stores) == 1 and
           parent.stores[0][0] == 'm' and parent.stores[0][1] is v, parent.stores)
        ok(c, 'decode_scalar: decodes at its position and returns the consumed size', r is n and len(calls) == 1 and
           calls[0][0] is d and calls[0][1] is pos and calls[0][2] is e, calls)

    def dec_bytes(c):
        e = order(c)
        t, parent = T(), OneField()
        v, n, h = Tok('v'), SymInt(c.int('n', 0)), SymInt(c.int('hint', 0))
        d, pos = any_data(c)[0], SymInt(c.int('pos', 0))
        calls = []
        t._decode = lambda *a: calls.append(a) or (v, n)
        hinted = c.choose('hinted')
        r = W.fn(D.decode_bytes)(parent, 'm', t, d, pos, e, {'m': h, 'other': 1} if hinted else {'other': 1})
        c.outcome = 'return'
        ok(c, 'decode_bytes: stores the decoded bytes under the member name', len(parent.stores) == 1 and
           parent.stores[0][0] == 'm' and parent.stores[0][1] is v, parent.stores)
        ok(c, 'decode_bytes: uses the length read by its own sizer', r is n and len(calls) == 1 and calls[0][0] is d
           and calls[0][1] is pos and calls[0][2] is (h if hinted else None), calls)

    def dec_array(c):
        e = order(c)
        parent, a = OneField(), T()
        n, h = SymInt(c.int('n', 0)), SymInt(c.int('hint', 0))
        d, pos = any_data(c)[0], SymInt(c.int('pos', 0))
        calls = []
        a._decode_impl = lambda *q, **k: calls.append(q) or n
        parent.value = a
        hinted = c.choose('hinted')
        r = W.fn(D.decode_array)(parent, 'm', None, d, pos, e, {'m': h, 'other': 1} if hinted else {'other': 1})
        c.outcome = 'return'
        ok(c, 'decode_array: the member array decodes itself with the length read by its own sizer', r is n and
           len(calls) == 1 and calls[0][0] is d and calls[0][1] is pos and calls[0][2] is e and
           calls[0][3] is (h if hinted else None), calls)

    def dec_comp(c):
        e = order(c)
        parent, a = OneField(), T()
        n = SymInt(c.int('n', 0))
        d, pos = any_data(c)[0], SymInt(c.int('pos', 0))
        calls = []
        a._decode_impl = lambda data, pos, endianness, terminal: calls.append((data, pos, endianness, terminal)) or n
        parent.value = a
        r = W.fn(D.decode_composite)(parent, 'm', None, d, pos, e, {})
        c.outcome = 'return'
        ok(c, 'decode_composite: the member decodes itself, not terminal', r is n and len(calls) == 1 and
           calls[0][0] is d and calls[0][1] is pos and calls[0][2] is e and calls[0][3] is False, calls)

    plan = LoopPlan()

    def dec_delim(c):
        e = order(c)
        t = T()
        v, n = SymInt(c.int('v')), SymInt(c.int('n', 0))
        d, pos = any_data(c)[0], SymInt(c.int('pos', 0))
        m = c.int('arrays', 1)
        t._BOUND = SymSeq(m, lambda i: Tok('array', SymInt(i)), 'bound')
        calls = []
        t._decode = lambda *a: calls.append(a) or (v, n)
        hints = SymDict()
        dw = DictWrites(hints, v)
        plan.heap = lambda lp: [dw]
        kind, r = caught(c, 'decode_array_delimiter', lambda: W.fn(D.decode_array_delimiter)(
            OneField(), 'm', t, d, pos, e, hints))
        if kind == 'return':
            ok(c, 'decode_array_delimiter: decodes at its position and returns the consumed size', r is n and
               len(calls) == 1 and calls[0][0] is d and calls[0][1] is pos and calls[0][2] is e, calls)
            sym.same('decode_array_delimiter: every bound array gets the decoded length', SymInt(dw.k), SymInt(m))
            c.prove('decode_array_delimiter: negative lengths are rejected', v.t >= 0)
        else:
            c.prove('decode_array_delimiter: rejects only negative lengths', v.t < 0)
    one('encode_scalar', 'enc', enc_scalar)
    one('encode_bytes', 'enc', enc_bytes)
    one('encode_composite', 'enc', enc_comp)
    one('encode_array_delimiter', 'enc', enc_delim)
    one('decode_scalar', 'dec total', dec_scalar)
    one('decode_bytes', 'dec total', dec_bytes)
    one('decode_array', 'dec total', dec_array)
    one('decode_composite', 'dec total', dec_comp)
    r = xform.verify('prophy.descriptor.decode_array_delimiter', dec_delim, {'decode_array_delimiter': plan},
                     ('return', 'ProphyError'))
    r.tags = 'dec total'
    res.append(r)
    return res


class DictWrites(object):
    """Loop invariant: the first k names map to the value, nothing else is written."""

    def __init__(self, d, v):
        self.obj, self.v, self.k = d, v, z3.IntVal(0)

    def entry(self, lp):
        self.before = len(self.obj.writes)

    def havoc(self, lp):
        self.k = lp.k
        self.mark = len(self.obj.writes)

    def close(self, lp):
        new = self.obj.writes[self.mark:]
        ok = len(new) == 1 and sym.is_same(new[0][0], Tok('array', SymInt(lp.k))) and sym.is_same(new[0][1], self.v)
        cx().record('%s invariant the first k names map to the decoded length is inductive' % lp.key,
                    'proved' if ok else 'unknown', repr(new))


# ------------------------------------------------------------------ choosing the codec

KINDS = {'scalar': (), 'enum': (), 'struct': (), 'union': (), 'bytes': (), 'array': ()}


class KindType(object):
    def __init__(self, kind, optional, bound):
        self.kind_, self._OPTIONAL, self._BOUND = kind, optional, bound

    def sym_issubclass(self, cs):
        P = prophy
        mine = {'scalar': (int,), 'enum': (int, P.scalar.enum), 'struct': (P.composite.struct,),
                'union': (P.composite.union,), 'bytes': (bytes,), 'array': (P.base_array.base_array,),
                'float': (float,)}[self.kind_]
        return any(k in cs for k in mine)


def codec_choice():
    """evaluate_codecs: every kind of type gets the codec functions of that kind (finite case analysis)."""
    W = world()
    D = prophy.descriptor
    f = W.fn(D.DescriptorField.evaluate_codecs)
    want = {'scalar': 'scalar', 'float': 'scalar', 'enum': 'scalar', 'struct': 'composite', 'union': 'composite',
            'bytes': 'bytes', 'array': 'array'}

    def run(c):
        n = 0
        for kind in sorted(want):
            for opt in (False, True):
                for bound in (None, 'numOf'):
                    if opt and kind in ('bytes', 'array') or opt and bound:
                        continue
                    t = KindType(kind, opt, bound)
                    base = KindType(kind, False, None)
                    object.__setattr__(t, '__bases__', (base,))
                    self = type('F', (), {})()
                    self.type = t
                    f(self)
                    exp = 'optional' if opt else 'array_delimiter' if bound and kind in ('scalar', 'enum') else want[kind]
                    real = [getattr(q, '_real', q) for q in (self.encode_fcn, self.decode_fcn)]
                    ok = real == [getattr(D, 'encode_' + exp), getattr(D, 'decode_' + exp)]
                    if opt:
                        ok = ok and [getattr(q, '_real', q) for q in (t._encode.__func__, t._decode.__func__)] == [
                            getattr(D, 'encode_' + want[kind]), getattr(D, 'decode_' + want[kind])]
                    n += 1
                    c.record('DescriptorField.evaluate_codecs: %s%s%s uses the %s codec' % (
                        'optional ' if opt else '', 'bound ' if bound else '', kind, exp), 'proved' if ok else 'unknown',
                        repr(real))
        c.outcome = 'return'
    r = xform.verify('prophy.descriptor.DescriptorField.evaluate_codecs', run, {}, ('return',))
    r.tags = 'enc dec total'
    return r


# ------------------------------------------------------------------ union

class Arms(object):
    def __init__(self, c):
        self.n = c.int('arms', 1)
        self.disc = z3.Function('disc', I, I)
        self.flen = z3.Function('armlen', I, I)


class ArmField(object):
    def __init__(self, arms, i, owner):
        self.arms, self.i, self.owner = arms, i, owner
        cx().assume(z3.And(arms.disc(i) >= 0, arms.disc(i) < 2 ** 32))
        self.name = Tok('name', SymInt(i))
        self.type = Tok('type', SymInt(i))
        self.discriminator = SymInt(arms.disc(i))

    def encode_fcn(self, parent, type_, value, endianness):
        c = cx()
        o = self.owner
        sym.same('union.encode: the arm is encoded as its own type', type_, self.type)
        sym.same('union.encode: the arm value is encoded', value, Tok('value', SymInt(self.i)))
        c.record('union.encode: byte order is passed through', 'proved' if endianness is o.endianness else 'refuted')
        return SymBytes.op('F', (SymInt(self.i),), o.armlen(self.i))

    def decode_fcn(self, parent, name, type_, data, pos, endianness, hints):
        return self.owner.decode_arm(self, parent, name, type_, data, pos, endianness)

    def sym_eq(self, o):
        return isinstance(o, ArmField) and z3.simplify(self.i == o.i)


class UnionOwner(object):
    pass


def union_codec():
    W = world()
    K = prophy.composite.union
    M = W.classes[K]
    res = []
    ue, ud = u32_stub()
    U32 = type('u32', (), {'_encode': staticmethod(ue), '_decode': staticmethod(ud)})
    plan = LoopPlan()

    def setup(c):
        own = UnionOwner()
        own.endianness = order(c)
        own.arms = arms = Arms(c)
        al, size = c.int('align', 4), c.int('size', 8)
        c.assume(z3.Or(al == 4, al == 8))
        own.al, own.size = al, size

        def armlen(i):
            # arms are of fixed size and fit (union_generator.add_attributes)
            cx().assume(z3.And(arms.flen(i) >= 0, al + arms.flen(i) <= size))
            return arms.flen(i)
        own.armlen = armlen
        S = type('S', (M,), {'sym_getattr': msg_getattr, '_ALIGNMENT': SymInt(al), '_SIZE': SymInt(size),
                             '_discriminator_type': U32,
                             '_descriptor': SymSeq(arms.n, lambda i: ArmField(arms, i, own), 'arms')})
        own.msg = S.__new__(S)
        own.j = c.int('arm', 0)
        c.assume(own.j < arms.n)
        return own

    def r_enc(c):
        own = setup(c)
        own.msg._discriminated = ArmField(own.arms, own.j, own)
        r = own.msg.encode(own.endianness)
        c.outcome = 'return'
        want = pk(own.endianness + 'I', SymInt(own.arms.disc(own.j))) + SymBytes.zero(own.al - 4) + SymBytes.op(
            'F', (SymInt(own.j),), own.armlen(own.j)) + SymBytes.zero(own.size - own.al - own.armlen(own.j))
        sym.same('union.encode: discriminator, padding, arm, zeros up to the union size', r, want)

    def find_plan(c, arms, d):
        q = z3.Int('q')

        def inv(lp, k):
            return z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < k), arms.disc(q) != d))
        plan.inv = inv

    def r_dec(c):
        own = setup(c)
        arms, j = own.arms, own.j
        q = z3.Int('q')
        d = arms.disc(j)
        c.assume(z3.And(d >= 0, d < 2 ** 32))
        # precondition (checked by prophyc): discriminators are distinct
        c.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < arms.n, arms.disc(q) == d), q == j)))
        pos = c.int('pos', 0)
        terminal = c.choose('terminal')
        m = c.int('post', 0)
        if terminal:
            c.assume(m == 0)
        data = opaque('Pre', pos) + pk(own.endianness + 'I', SymInt(d)) + SymBytes.zero(own.al - 4) + SymBytes.op(
            'F', (SymInt(j),), own.armlen(j)) + SymBytes.zero(own.size - own.al - own.armlen(j)) + opaque('Post', m)
        calls = []

        def decode_arm(f, parent, name, type_, dt, ps, en):
            calls.append(f)
            cx().record('union._decode_impl: the arm is decoded from the same data and order',
                        'proved' if dt is data and en is own.endianness and parent is own.msg else 'unknown')
            sym.same('union._decode_impl: the arm is decoded after the padded discriminator', ps, SymInt(pos + own.al))
            sym.same('union._decode_impl: the arm named by the discriminator is decoded', SymInt(f.i), SymInt(j))
            sym.same('union._decode_impl: the arm is stored under its name', name, f.name)
            sym.same('union._decode_impl: the arm is decoded as its type', type_, f.type)
            cx().record('union._decode_impl: the arm is selected before it is decoded',
                        'proved' if getattr(own.msg, '_discriminated', None) is f else 'unknown')
            return SymInt(own.armlen(f.i))
        own.decode_arm = decode_arm
        find_plan(c, arms, d)
        kind, r = caught(c, 'union._decode_impl', lambda: own.msg._decode_impl(data, SymInt(pos), own.endianness, terminal))
        c.record('union._decode_impl: accepts the canonical encoding', 'proved' if kind == 'return' else 'refuted',
                 '%r\npath %s' % (r, c.pc[-12:]))
        if kind == 'return':
            sym.same('union._decode_impl: consumes exactly the union', r, SymInt(own.size))
            c.record('union._decode_impl: decodes one arm', 'proved' if len(calls) == 1 else 'unknown')

    def r_total(c):
        own = setup(c)
        pos = c.int('pos', 0)
        terminal = c.choose('terminal')
        data, n = any_data(c)

        def decode_arm(f, parent, name, type_, dt, ps, en):
            cx().prove('union._decode_impl: position is not negative', i_term(ps) >= 0)
            if cx().choose('arm rejects'):
                raise ProphyError('arm')
            return SymInt(cx().int('consumed', 0))
        own.decode_arm = decode_arm
        plan.inv = None
        kind, r = caught(c, 'union._decode_impl', lambda: own.msg._decode_impl(data, SymInt(pos), own.endianness, terminal))
        if kind == 'return':
            c.prove('union._decode_impl: consumes bytes that exist', z3.And(i_term(r) == own.size, pos + own.size <= n))
            if terminal:
                c.prove('union._decode_impl: the whole input is consumed', pos + own.size == n)

    def r_find(c):
        own = setup(c)
        d = c.int('d', 0)
        find_plan(c, own.arms, d)
        kind, r = caught(c, 'union._get_discriminated_field', lambda: own.msg._get_discriminated_field(SymInt(d)))
        if kind == 'return':
            c.prove('union._get_discriminated_field: returns an arm with that discriminator', own.arms.disc(r.i) == d)
        else:
            q = c.int('q', 0)
            c.assume(q < own.arms.n)
            c.prove('union._get_discriminated_field: rejects only unknown discriminators', own.arms.disc(q) != d)
    ql = qual(K._get_discriminated_field)
    for tag, run, exp, fn in (('enc', r_enc, ('return',), 'encode'), ('dec', r_dec, ('return',), '_decode_impl'),
                              ('total', r_total, ('return', 'ProphyError'), '_decode_impl'),
                              ('dec total', r_find, ('return', 'ProphyError'), '_get_discriminated_field')):
        r = xform.verify('prophy.composite.union.' + fn, run, {ql: plan}, exp)
        r.tags = tag
        res.append(r)
    return res


# ------------------------------------------------------------------ static attributes

class AttrField(object):
    """A descriptor field whose partial alignment is about to be computed."""

    def __init__(self, env, i, owner):
        self.__dict__.update(env=env, i=i, owner=owner)
        env.facts(i)
        t = AttrType(env, i)
        t.__dict__['owner'] = owner
        self.__dict__.update(type=t, name=Tok('name', SymInt(i)))

    def __setattr__(self, n, v):
        if n != 'partial_alignment':
            raise Unsupported('write of %s' % n)
        c = cx()
        c.prove('struct_generator.add_attributes: only dynamic members get a partial alignment', self.env.dyn(self.i))
        self.owner.partial(self.i, v)
        self.owner.written.append(self.i)


class AttrType(FieldType):
    def __setattr__(self, n, v):
        if n in ('env', 'i'):
            object.__setattr__(self, n, v)
        elif n == '_PARTIAL_ALIGNMENT':
            self.owner.partial(self.i, v)
        else:
            raise Unsupported('write of %s' % n)


class PartialLog(object):
    def __init__(self, own):
        self.own, self.obj = own, own

    def entry(self, lp):
        pass

    def havoc(self, lp):
        self.own.written = []

    def close(self, lp):
        e = lp.seq.elem(lp.k)
        w = self.own.written
        if not isinstance(e, AttrField):
            if w:
                raise Unsupported('partial alignment written in an unexpected loop')
            return
        env, i = self.own.env, e.i
        if w and all(sym.is_same(SymInt(x), SymInt(i)) for x in w):
            return
        cx().record('%s: a dynamic member gets its partial alignment' % lp.key,
                    'proved' if not w and cx().entails(z3.Not(env.dyn(i))) else 'unknown', repr(w))


def struct_attributes():
    """struct_generator.add_attributes for an arbitrary descriptor."""
    W = world()
    G = prophy.generators.struct_generator
    f = W.fn(G.add_attributes)
    types = W.fn(prophy.generators._composite_generator_base._types)
    res = []
    for packed in (False, True):
        fname = 'prophy.generators.struct_generator.add_attributes'
        tag = ' (packed)' if packed else ''
        plan, tplan = LoopPlan(), LoopPlan()

        def run(c):
            env = Members(c)
            own = UnionOwner()
            own.env, own.written = env, []
            n = env.n
            env.static = static_only = c.choose('fixed size')
            # ghost: alignment of the block starting at member i; block ends after a dynamic member
            Bk = z3.Function('block', I, I)
            Off = z3.Function('offset', I, I)
            SS, SP = z3.Function('sum_size', I, I), z3.Function('sum_pad', I, I)

            def mx(a, b):
                return z3.If(a >= b, a, b)

            def more(i):
                cx().assume(z3.Implies(z3.And(i >= 0, i < n),
                                       Bk(i) == mx(env.wa(i), z3.If(env.dyn(i), z3.IntVal(1), Bk(i + 1)))))
            env.more = more
            c.assume(Bk(n) == 1)

            def partial(i, v):
                sym.same('%s: partial alignment is the alignment of the following block%s' % (fname, tag), v,
                         SymInt(Bk(i + 1)))
            own.partial = partial
            A = z3.Int('A')

            def nxt(i):
                return z3.If(i + 1 < n, env.wa(i + 1), own.align())

            def P(i):
                return pad(Off(i) + env.ws(i), nxt(i))

            class Cls(object):
                _descriptor = SymSeq(n, lambda i: AttrField(env, i, own), 'descriptor')
                __name__ = 'S'

                def sym_issubclass(self, cs):
                    if prophy.composite.struct_packed in cs:
                        return packed
                    return prophy.composite.struct in cs
            cls = Cls()
            cls._types = lambda: types(cls)
            own.align = lambda: i_term(cls.__dict__.get('_ALIGNMENT', z3.Int('unset')))
            c.sum_specs = [(env.ws, SS), (P, SP)]
            tfam = SymSeq(n, lambda i: typ(env, i, own), 'types')
            tplan.cands = lambda lp: [Cand('the types so far', lambda k: SymList([('seg', tfam, z3.IntVal(0), k)]))]
            plan.cands = lambda lp: gcands() + [
                Cand('the alignment of the block above', lambda k: SymInt(Bk(n - k)),
                     lambda k: (more(n - k - 1), SymInt(Bk(n - k - 1)))[1])]
            plan.heap = lambda lp: [PartialLog(own)]
            pfam = SymSeq(n, lambda i: SymInt(P(i)), 'pads')
            env.facts(z3.IntVal(0))

            def off(k):
                k = z3.simplify(k)
                return SymInt(z3.IntVal(0) if z3.is_int_value(k) and k.as_long() == 0 else Off(k))
            c.assume(Off(0) == 0)
            gcands = lambda: [Cand('the offset of member k', off, lambda k: SymInt(Off(k) + env.ws(k) + P(k))),
                                      Cand('the paddings so far', lambda k: SymList([('seg', pfam, z3.IntVal(0), k)]))]
            f(cls)
            c.outcome = 'return'
            d = cls.__dict__
            q = c.int('any member', 0)
            c.assume(q < n)
            env.facts(q)
            if True:
                r = c.int('r', 0)
            # alignment: the greatest member alignment (1 when empty)
            al = i_term(d['_ALIGNMENT'])
            c.prove('%s: alignment covers every member%s' % (fname, tag), al >= env.wa(q))
            c.prove('%s: dynamic iff some member is%s' % (fname, tag), z3.Implies(env.dyn(q), b_term(d['_DYNAMIC'])))
            c.prove('%s: unlimited iff some member is%s' % (fname, tag), z3.Implies(env.unl(q), b_term(d['_UNLIMITED'])))
            c.record('%s: not optional, not bound%s' % (fname, tag), 'proved' if d['_OPTIONAL'] is False and
                     d['_BOUND'] is None else 'refuted')
            if static_only:
                c.prove('%s: fixed members make a fixed struct%s' % (fname, tag), z3.Not(b_term(d['_DYNAMIC'])))
                # lemma_offsets: SS(n) + SP(n) == Off(n)
                c.assume(SS(n) + SP(n) == Off(n))
                want = SS(n) if packed else Off(n)
                sym.same('%s: size is the end of the last member, padded%s' % (fname, tag), d['_SIZE'], SymInt(want))

        def empty(c):
            own = UnionOwner()

            class Cls(object):
                _descriptor = []
                __name__ = 'S'

                def sym_issubclass(self, cs):
                    return packed if prophy.composite.struct_packed in cs else prophy.composite.struct in cs
            cls = Cls()
            cls._types = lambda: types(cls)
            f(cls)
            c.outcome = 'return'
            c.record('%s: an empty struct has size 0 and alignment 1%s' % (fname, tag), 'proved' if cls._SIZE == 0 and
                     cls._ALIGNMENT == 1 and not cls._DYNAMIC and not cls._UNLIMITED else 'refuted')
        plans = {qual(G.add_attributes): plan, qual(prophy.generators._composite_generator_base._types): tplan}
        for rn in (run, empty):
            r = xform.verify(fname, rn, plans, ('return',))
            r.tags = 'attr'
            res.append(r)
    return res


def typ(env, i, own):
    env.facts(i)
    t = AttrType(env, i)
    t.__dict__['owner'] = own
    return t


def lemma_static():
    """Induction lemmas about the recursive layout functions (no code involved)."""
    def offsets(c):
        S, P, O = (z3.Function(x, I, I) for x in ('sum_size', 'sum_pad', 'offset'))
        ws, p = z3.Function('ws', I, I), z3.Function('p', I, I)
        k = c.int('k', 0)
        c.assume(z3.And(S(0) == 0, P(0) == 0, O(0) == 0))
        c.prove('lemma offsets: base', S(0) + P(0) == O(0))
        c.assume(z3.And(S(k + 1) == S(k) + ws(k), P(k + 1) == P(k) + p(k), O(k + 1) == O(k) + ws(k) + p(k)))
        c.assume(S(k) + P(k) == O(k))
        c.prove('lemma offsets: sum of sizes and paddings is the next offset', S(k + 1) + P(k + 1) == O(k + 1))
        c.outcome = 'return'

    def length(c):
        """For a fixed-size struct: offset(k) is the padded length of the encoding of k members, hence _SIZE is the length."""
        env = Members(c)
        env.static = True
        LE, Off = z3.Function('LE', I, I), z3.Function('Off', I, I)
        k = c.int('k', 0)
        c.assume(k < env.n)
        env.facts(k)
        env.facts(k + 1)
        c.assume(env.flen(k) == env.ws(k))
        c.assume(z3.And(LE(0) == 0, Off(0) == 0, LE(k) >= 0))
        c.prove('lemma fixed length: base', Off(0) == LE(0) + pad(LE(0), env.wa(0)))
        nxt = z3.If(k + 1 < env.n, env.wa(k + 1), env.A)
        c.assume(LE(k + 1) == LE(k) + pad(LE(k), env.wa(k)) + env.flen(k))
        c.assume(Off(k + 1) == Off(k) + env.ws(k) + pad(Off(k) + env.ws(k), nxt))
        c.assume(Off(k) == LE(k) + pad(LE(k), env.wa(k)))
        c.prove('lemma fixed length: the size of a fixed struct is the length of its encoding',
                Off(k + 1) == LE(k + 1) + pad(LE(k + 1), nxt))
        c.outcome = 'return'

    def blocks(c):
        B, wa, dyn = z3.Function('B', I, I), z3.Function('wa', I, I), z3.Function('dyn', I, z3.BoolSort())
        A, k = c.int('A', 1), c.int('k', 0)
        c.assume(z3.And(is_align(A), is_align(wa(k)), wa(k) <= A, is_align(B(k + 1)), B(k + 1) <= A))
        c.assume(B(k) == z3.If(wa(k) >= z3.If(dyn(k), 1, B(k + 1)), wa(k), z3.If(dyn(k), 1, B(k + 1))))
        c.prove('lemma blocks: a block alignment is an alignment not above the struct alignment',
                z3.And(is_align(B(k)), B(k) <= A))
        c.prove('lemma blocks: a block alignment covers its first member', B(k) >= wa(k))
        c.outcome = 'return'
    res = []
    for nm, rn in (('offsets', offsets), ('fixed length', length), ('blocks', blocks)):
        r = xform.verify('lemma ' + nm, rn, {}, ('return',))
        r.tags = 'attr enc'
        res.append(r)
    return res


def union_attributes():
    W = world()
    G = prophy.generators.union_generator
    f = W.fn(G.add_attributes)
    types = W.fn(prophy.generators._composite_generator_base._types)
    fname = 'prophy.generators.union_generator.add_attributes'
    tplan = LoopPlan()

    def run(c):
        n = c.int('arms', 1)
        al, sz = z3.Function('align', I, I), z3.Function('size', I, I)

        class T(object):
            def __init__(self, i):
                cx().assume(z3.And(is_align(al(i)), sz(i) >= 0))
                self._ALIGNMENT, self._SIZE = SymInt(al(i)), SymInt(sz(i))
                self._OPTIONAL = self._DYNAMIC = False
                self.i = i

            def sym_eq(self, o):
                return isinstance(o, T) and z3.simplify(self.i == o.i)

        class F(object):
            def __init__(self, i):
                self.type = T(i)

        class Cls(object):
            _descriptor = SymSeq(n, F, 'arms')
        cls = Cls()
        cls._types = lambda: types(cls)
        tplan.cands = lambda lp: [Cand('the types so far', lambda k: SymList([('seg', SymSeq(n, T, 'types'), z3.IntVal(0), k)]))]
        f(cls)
        c.outcome = 'return'
        d = cls.__dict__
        q, w1, w2 = c.int('q', 0), c.int('w1', 0), c.int('w2', 0)
        c.assume(q < n)
        T(q)
        A, S = i_term(d['_ALIGNMENT']), i_term(d['_SIZE'])
        c.prove('%s: alignment covers the discriminator and every arm' % fname, z3.And(A >= 4, A >= al(q)))
        c.prove('%s: every arm fits after the padded discriminator' % fname, A + sz(q) <= S)
        c.prove('%s: size is a multiple of the alignment' % fname, sym.mod_term(S, A) == 0)
        # tightness: some arm needs the size and the alignment
        x = z3.Int('x')
        c.prove('%s: alignment is no greater than needed' % fname, z3.Or(
            A == 4, z3.Exists([x], z3.And(x >= 0, x < n, A == al(x)))))
        c.prove('%s: size is no greater than needed' % fname,
                z3.Exists([x], z3.And(x >= 0, x < n, S - A - sz(x) < A)))
        c.record('%s: fixed, not optional, u32 discriminator' % fname, 'proved' if d['_DYNAMIC'] is False and
                 d['_OPTIONAL'] is False and d['_UNLIMITED'] is False and d['_BOUND'] is None and
                 d['_discriminator_type'] is prophy.scalar.u32 else 'refuted')
    r = xform.verify(fname, run, {qual(prophy.generators._composite_generator_base._types): tplan}, ('return',))
    r.tags = 'attr'
    return r
