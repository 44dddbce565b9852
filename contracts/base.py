"""Shared pieces of the contracts on the Python runtime."""
import os
import sys
import types

import z3

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

from engine import sym, xform  # noqa: E402
from engine.sym import SimError, SymBool, SymBytes, SymInt, SymSeq, Tok, Unsupported, cx, i_term  # noqa: E402
from vf import core  # noqa: E402

REPO = os.environ.get('PROPHY_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
for _p in ('/opt/venv/lib/python3.12/site-packages',):
    if _p not in sys.path:
        sys.path.append(_p)
sys.dont_write_bytecode = True

I = z3.IntSort()
B = z3.BoolSort()


def ufun(name, *sorts):
    return z3.Function(name, *sorts)


def is_align(a):
    return z3.Or(*[a == k for k in sym.ALIGNS])


def pad(n, a):
    """Spec: bytes from n up to the next multiple of a (a in 1, 2, 4, 8)."""
    def m(x, k):
        return z3.IntVal(0) if k == 1 else (-x) % k
    a = sym.conc(a)
    if z3.is_int_value(a):
        return m(n, a.as_long())
    return z3.If(a == 1, z3.IntVal(0), z3.If(a == 2, m(n, 2), z3.If(a == 4, m(n, 4), m(n, 8))))


PK = {'b': (1, -(1 << 7), (1 << 7) - 1), 'B': (1, 0, (1 << 8) - 1), 'h': (2, -(1 << 15), (1 << 15) - 1),
      'H': (2, 0, (1 << 16) - 1), 'i': (4, -(1 << 31), (1 << 31) - 1), 'I': (4, 0, (1 << 32) - 1),
      'q': (8, -(1 << 63), (1 << 63) - 1), 'Q': (8, 0, (1 << 64) - 1), 'f': (4, None, None), 'd': (8, None, None)}


class StructModule(object):
    """Trusted contract of the struct module for one-item formats with an explicit byte order."""
    error = type('error', (SimError,), {'__init__': lambda self, m='': SimError.__init__(self, 'struct.error', m)})

    @staticmethod
    def _fmt(fmt):
        if not isinstance(fmt, str) or len(fmt) != 2 or fmt[0] not in '<>' or fmt[1] not in PK:
            raise Unsupported('struct format %r' % (fmt,))
        return PK[fmt[1]]

    @classmethod
    def pack(cls, fmt, v):
        size, lo, hi = cls._fmt(fmt)
        if lo is not None:
            if not (isinstance(v, (int, SymInt, SymBool))):
                raise Unsupported('pack of %r' % type(v).__name__)
            if not cx().branch(z3.And(i_term(v) >= lo, i_term(v) <= hi)):
                raise cls.error('out of range')
            v = SymInt(i_term(v))
        else:
            v = v if isinstance(v, Tok) else Tok('float', v)
            if fmt[1] == 'f' and not getattr(v, 'fits32', False):
                if cx().choose('overflows32'):
                    raise SimError('OverflowError')
        return SymBytes([('op', 'pk', (fmt, v), z3.IntVal(size))])

    @classmethod
    def unpack(cls, fmt, data):
        size, lo, hi = cls._fmt(fmt)
        data = SymBytes.of(data)
        if not cx().branch(data.length() == size):
            raise cls.error('unpack requires a buffer of %d bytes' % size)
        return (unpacked(fmt, data),)


UNPACK = z3.Function('unpack', z3.StringSort(), I, I, I)


def unpacked(fmt, data):
    """The value of `size` bytes read with fmt: inverse of pack; otherwise a value in range named by its position."""
    size, lo, hi = PK[fmt[1]]
    ch = sym.norm(data.chunks)
    if len(ch) == 1 and ch[0][0] == 'op' and ch[0][1] == 'pk' and ch[0][2][0] == fmt:
        return ch[0][2][1]
    if len(ch) == 1 and ch[0][0] == 'zero':
        return SymInt(0) if lo is not None else Tok('float', 0.0)
    if len(ch) == 1 and ch[0][0] == 'op' and ch[0][1] == 'slice':
        src, a, b = ch[0][2]
        if lo is None:
            return Tok('unpacked', fmt, SymInt(a))
        v = UNPACK(z3.StringVal(fmt), a, b)
        cx().assume(z3.And(v >= lo, v <= hi))
        return SymInt(v)
    raise Unsupported('unpack of %r' % data)


def obligations(results):
    """core.Ob list out of engine results; identical names are merged (worst status wins)."""
    rank = {'proved': 0, 'unsupported': 1, 'unknown': 2, 'refuted': 3}
    obs = []
    for r in results:
        by = {}
        order = []
        for name, st, detail, model, info in r.obs:
            if name not in by:
                by[name] = (st, detail, model, info)
                order.append(name)
            elif rank[st] > rank[by[name][0]]:
                by[name] = (st, detail, model, info)
        share = r.solver_s / max(1, len(order))
        if not order:
            obs.append(core.Ob('%s: obligations generated' % r.function, r.function, 'unknown', r.solver_s,
                               'no obligation was generated'))
        for n in order:
            st, detail, model, info = by[n]
            o = core.Ob(n, r.function, st, share, detail, model)
            o.info = info
            obs.append(o)
    return obs
