"""Bit-vector conditions as integer ones: exact for linear arithmetic, comparison, masks, extraction; the rest is abstracted."""
import z3

I = z3.IntSort()


class Trans(object):
    def __init__(self):
        self.memo, self.n, self.fns = {}, 0, {}
        self.all, self.cur, self.inexact = [], [set()], -1
        self.ranges = {}
        self.tops = {}              # largest value of a variable or of a function, by name: facts of every query

    def top(self, t):
        w = t.size()
        return min(self.tops.get(t.decl().name(), 2**w - 1), 2**w - 1)

    def range(self, t):
        """Least and largest value, from the shape of the term."""
        i = t.get_id()
        if i not in self.ranges:
            self.ranges[i] = (self.range_(t), t)
        return self.ranges[i][0]

    def range_(self, t):
        w = t.size()
        k = t.decl().kind()
        ch = t.children()
        full = (0, 2**w - 1)
        if z3.is_bv_value(t):
            return t.as_long(), t.as_long()
        if self.is_sum(t):
            lo, hi = self.span(t)
            return (lo, hi) if lo >= 0 and hi < 2**w else full
        if k == z3.Z3_OP_ITE:
            a, b = self.range(ch[1]), self.range(ch[2])
            return min(a[0], b[0]), max(a[1], b[1])
        if k == z3.Z3_OP_CONCAT:
            hi = 0
            for c in ch:
                hi = (hi << c.size()) + self.range(c)[1]
            return 0, hi
        if k == z3.Z3_OP_ZERO_EXT:
            return self.range(ch[0])
        if k == z3.Z3_OP_EXTRACT:
            h, l = t.params()
            return 0, min(2**(h - l + 1) - 1, self.range(ch[0])[1] >> l)
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) and z3.is_bv_value(ch[1]) and ch[1].as_long():
            return 0, self.range(ch[0])[1] // ch[1].as_long()
        if k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and z3.is_bv_value(ch[1]) and ch[1].as_long():
            return 0, ch[1].as_long() - 1
        if k == z3.Z3_OP_BLSHR and z3.is_bv_value(ch[1]):
            return 0, self.range(ch[0])[1] >> ch[1].as_long()
        if k == z3.Z3_OP_BAND:
            return 0, min(self.range(c)[1] for c in ch)
        if k == z3.Z3_OP_UNINTERPRETED:
            return 0, self.top(t)
        return full

    @staticmethod
    def is_sum(t):
        k = t.decl().kind()
        return k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG) or k == z3.Z3_OP_BSHL and z3.is_bv_value(t.arg(1)) or \
            k == z3.Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(0))

    def span(self, t):
        """Bounds of the integer sum whose residue is t."""
        lo = hi = 0
        for c, x in self.linear(t, 1, []):
            if x is None:
                lo, hi = lo + c, hi + c
            else:
                a, b = self.range(x)
                lo, hi = lo + min(c * a, c * b), hi + max(c * a, c * b)
        return lo, hi

    def add(self, *facts):
        """Facts the terms being translated rely on."""
        for f in facts:
            self.cur[-1].add(len(self.all))
            self.all.append(f)

    def once(self, key, t, f):
        if key not in self.memo:
            self.cur.append(set())
            v = f(t)
            self.memo[key] = (v, t, self.cur.pop())
        v, _, facts = self.memo[key]
        self.cur[-1] |= facts
        return v

    def lost(self):
        self.cur[-1].add(self.inexact)

    def fresh(self, w):
        self.n += 1
        v = z3.Int('q!%d' % self.n)
        if w is not None:
            self.add(v >= 0, v < 2**w)
        return v

    def boolean(self, t):
        return self.once(('b', t.get_id()), t, self.boolean_)

    def boolean_(self, t):
        k = t.decl().kind()
        ch = t.children()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            return (z3.And if k == z3.Z3_OP_AND else z3.Or)(*[self.boolean(c) for c in ch])
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.boolean(ch[0]))
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.boolean(ch[0]), self.boolean(ch[1]))
        if k in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE):
            return t
        if k == z3.Z3_OP_ITE:
            return z3.If(*[self.boolean(c) for c in ch])
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_IFF):
            if z3.is_bool(ch[0]):
                r = self.boolean(ch[0]) == self.boolean(ch[1])
            elif z3.is_bv(ch[0]):
                r = self.value(ch[0]) == self.value(ch[1])
            else:
                raise KeyError('sort')
            return z3.Not(r) if k == z3.Z3_OP_DISTINCT else r
        if k == z3.Z3_OP_XOR:
            return z3.Xor(self.boolean(ch[0]), self.boolean(ch[1]))
        u = {z3.Z3_OP_ULEQ: lambda a, b: a <= b, z3.Z3_OP_ULT: lambda a, b: a < b,
             z3.Z3_OP_UGEQ: lambda a, b: a >= b, z3.Z3_OP_UGT: lambda a, b: a > b}
        s = {z3.Z3_OP_SLEQ: lambda a, b: a <= b, z3.Z3_OP_SLT: lambda a, b: a < b,
             z3.Z3_OP_SGEQ: lambda a, b: a >= b, z3.Z3_OP_SGT: lambda a, b: a > b}
        if k in u:
            return u[k](self.value(ch[0]), self.value(ch[1]))
        if k in s:
            w = ch[0].size()
            a, b = (z3.If(x >= 2**(w - 1), x - 2**w, x) for x in (self.value(ch[0]), self.value(ch[1])))
            return s[k](a, b)
        if k == z3.Z3_OP_UNINTERPRETED and not ch:
            return t
        if k == z3.Z3_OP_UNINTERPRETED and all(z3.is_bv(c) for c in ch):
            d = t.decl()
            f = self.fns.setdefault(d.name(), z3.Function(d.name() + '%', *([I] * len(ch) + [z3.BoolSort()])))
            return f(*[self.value(c) for c in ch])
        self.lost()
        self.n += 1
        return z3.Bool('b!%d' % self.n)

    def value(self, t):
        return self.once(t.get_id(), t, self.value_)

    def linear(self, t, k, out):
        """Integer whose residue is t."""
        d = t.decl().kind()
        if z3.is_bv_value(t):
            c = t.as_long()
            if c >= 2**(t.size() - 1):
                c -= 2**t.size()
            out.append((k * c, None))
        elif d == z3.Z3_OP_BADD:
            for c in t.children():
                self.linear(c, k, out)
        elif d == z3.Z3_OP_BSUB:
            self.linear(t.arg(0), k, out)
            for c in t.children()[1:]:
                self.linear(c, -k, out)
        elif d == z3.Z3_OP_BNEG:
            self.linear(t.arg(0), -k, out)
        elif d == z3.Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(0)):
            c = t.arg(0).as_long()
            if c >= 2**(t.size() - 1):
                c -= 2**t.size()
            self.linear(t.arg(1), k * c, out)
        elif d == z3.Z3_OP_BSHL and z3.is_bv_value(t.arg(1)):
            self.linear(t.arg(0), k << t.arg(1).as_long(), out)
        else:
            out.append((k, t))
        return out

    def value_(self, t):
        w = t.size()
        k = t.decl().kind()
        ch = t.children()
        if z3.is_bv_value(t):
            return z3.IntVal(t.as_long())
        if self.is_sum(t):
            s = z3.Sum([z3.IntVal(c) if x is None else c * self.value(x) for c, x in self.linear(t, 1, [])])
            lo, hi = self.span(t)
            q0, q1 = lo >> w, hi >> w
            if q0 == q1:
                return s - q0 * 2**w if q0 else s
            if q1 == q0 + 1:
                return z3.If(s < q1 * 2**w, s - q0 * 2**w, s - q1 * 2**w)
            q = self.fresh(None)
            r = s - q * 2**w
            self.add(r >= 0, r < 2**w, q >= q0, q <= q1)
            return r
        if k == z3.Z3_OP_ITE:
            return z3.If(self.boolean(ch[0]), self.value(ch[1]), self.value(ch[2]))
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = t.params()
            x = self.value(ch[0])
            if lo:
                x = x / 2**lo
            if hi + 1 < ch[0].size():
                x = x % 2**(hi - lo + 1)
            return x
        if k == z3.Z3_OP_CONCAT:
            s = z3.IntVal(0)
            for c in ch:
                s = s * 2**c.size() + self.value(c)
            return s
        if k == z3.Z3_OP_ZERO_EXT:
            return self.value(ch[0])
        if k == z3.Z3_OP_SIGN_EXT:
            x, n = self.value(ch[0]), ch[0].size()
            return z3.If(x >= 2**(n - 1), x + 2**w - 2**n, x)
        if k == z3.Z3_OP_BAND and len(ch) == 2:
            for a, b in (ch, ch[::-1]):
                if z3.is_bv_value(b):
                    c = b.as_long()
                    x = self.value(a)
                    if c & (c + 1) == 0:
                        return x % (c + 1)
                    low = 2**w - 1 - c
                    if low & (low + 1) == 0:
                        return x - x % (low + 1)
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUREM, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM_I) and z3.is_bv_value(ch[1]) and ch[1].as_long():
            x = self.value(ch[0])
            return x / ch[1].as_long() if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) else x % ch[1].as_long()
        if k == z3.Z3_OP_BLSHR and z3.is_bv_value(ch[1]):
            return self.value(ch[0]) / 2**ch[1].as_long()
        if k == z3.Z3_OP_UNINTERPRETED:
            if not ch:
                v = z3.Int(t.decl().name() + '%')
            else:
                d = t.decl()
                f = self.fns.setdefault(d.name(), z3.Function(d.name() + '%', *([I] * (len(ch) + 1))))
                v = f(*[self.value(c) for c in ch])
            self.add(v >= 0, v <= self.top(t))
            return v
        self.lost()
        return self.fresh(w)


def check(conds, ms, tr=None):
    """unsat is definite; sat is definite when the second result is true."""
    tr = tr or Trans()
    s = z3.Solver()
    s.set('timeout', ms)
    tr.cur = [set()]
    try:
        fs = [tr.boolean(c) for c in conds]
    except KeyError:
        return z3.unknown, False
    facts = tr.cur[-1]
    s.add(*[tr.all[i] for i in sorted(facts) if i >= 0])
    s.add(*fs)
    return s.check(), tr.inexact not in facts
