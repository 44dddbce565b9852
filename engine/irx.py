"""Symbolic execution of LLVM IR functions against contracts: bit-vectors, a byte memory per object, loops summarised exactly.

A pointer is (object, offset).  Distinct objects do not overlap.  A loop is replaced by its k-th iteration: variables of
the form v0 + c*k, sums of callee results, bytes written at an affine address; each such form and every invariant
is proved inductive before it is used."""
import time

import z3

from engine import intarith
from engine.llvm import Bad, Ty

W64 = z3.BitVecSort(64)
B8 = z3.BitVecSort(8)


def bv(n, w=64):
    return z3.BitVecVal(n, w)


def S(t):
    return z3.simplify(t, bv_le2extract=False)


class Region(object):
    def __init__(self, name, size=None, writable=True):
        self.name, self.writable = name, writable
        self.size = None if size is None else (bv(size) if isinstance(size, int) else size)
        self.base = z3.BitVec('&' + name, 64)
        self.init = z3.Function('mem ' + name, W64, B8)
        self.cells = {}         # constant offset -> pointer held there initially


class Ptr(object):
    def __init__(self, region, off):
        self.region, self.off = region, off if not isinstance(off, int) else bv(off)

    def num(self):
        return self.off if self.region is None else self.region.base + self.off

    def __repr__(self):
        return '&%s+%s' % (self.region and self.region.name, self.off)


class W(object):
    """n bytes at off."""

    def __init__(self, off, n, val):
        self.off, self.n, self.val = off, n, val


class Run(object):
    """Bytes off .. off+len: byte(i)."""

    def __init__(self, off, length, byte, tag=None):
        self.off, self.len, self.byte, self.tag = off, length, byte, tag


class Layer(object):
    """Iterations 0 .. K-1: items (t, n, val(j)) at o0 + c*j + t, or runs at o0 + sum(j) of length(j)."""

    def __init__(self, o0, c, K, items, total=None, unit=1, first=None):
        self.o0, self.c, self.K, self.items, self.total, self.unit, self.first = o0, c, K, items, total, unit, first


class St(object):
    def __init__(self):
        self.pc, self.mem, self.fine = [], {}, True

    def copy(self):
        s = St()
        s.pc, s.mem, s.fine = list(self.pc), dict(self.mem), self.fine
        return s

    def assume(self, t):
        t = S(t)
        if not z3.is_true(t):
            self.pc.append(t)


def atoms(t, m, k=1):
    """Linear form of a 64-bit term: atoms with coefficients; the constant is under None."""
    d = t.decl().kind()
    if z3.is_bv_value(t):
        m[None] = m.get(None, (None, 0))[0], (m.get(None, (None, 0))[1] + k * t.as_long()) % 2**64
    elif d == z3.Z3_OP_BADD:
        for c in t.children():
            atoms(c, m, k)
    elif d == z3.Z3_OP_BSUB:
        atoms(t.arg(0), m, k)
        for c in t.children()[1:]:
            atoms(c, m, -k)
    elif d == z3.Z3_OP_BNEG:
        atoms(t.arg(0), m, -k)
    elif d == z3.Z3_OP_BMUL and z3.is_bv_value(t.arg(0)) and t.num_args() == 2:
        atoms(t.arg(1), m, k * t.arg(0).as_long())
    elif d == z3.Z3_OP_BSHL and z3.is_bv_value(t.arg(1)):
        atoms(t.arg(0), m, k << t.arg(1).as_long())
    else:
        i = t.get_id()
        m[i] = (t, (m.get(i, (t, 0))[1] + k) % 2**64)
    return m


def linear(t):
    return {i: v for i, v in atoms(t, {}).items() if v[1]}


def diff(a, b):
    """a - b as a constant, or None."""
    m = linear(S(a) - S(b))
    if not m:
        return 0
    if list(m) == [None]:
        return m[None][1]
    return None


def norm(t):
    """The term rebuilt from its linear form."""
    m = linear(S(t))
    out = None
    for i in sorted(m, key=lambda x: -1 if x is None else x):
        v, c = m[i]
        x = bv(c) if i is None else (v if c == 1 else bv(c) * v)
        out = x if out is None else out + x
    return bv(0) if out is None else out


class Ob(object):
    def __init__(self, name):
        self.name, self.status, self.s, self.detail, self.model = name, 'proved', 0.0, '', None


class Unsupported(Exception):
    pass


class Summed(Unsupported):
    pass


class JUMP(object):
    op, to = 'jump', None


class Machine(object):
    def __init__(self, mod, fname, calls=None, limit=60):
        self.mod, self.fname, self.calls = mod, fname, calls or {}
        self.obs, self.order = {}, []
        self.quiet = 0
        self.fresh_n = 0
        self.deadline = time.time() + limit
        self.cache = {}
        self.trans = intarith.Trans()
        self.solver_s = 0.0
        self.loops_cache = {}
        self.sums, self.recs = {}, []
        self.later = {}
        self.known = set()          # of these functions, the ones the specification defines alike
        self.sum_facts = lambda s, j: []
        self.depth = 0
        self.globals = {}

    def fresh(self, n, w=64):
        self.fresh_n += 1
        return z3.BitVec('%s!%d' % (n, self.fresh_n), w)

    def most(self, st, t, n):
        """A bound assumed of a variable, or of a function for every argument."""
        st.assume(z3.ULE(t, bv(n, t.size())))
        name = t.decl().name()
        self.trans.tops[name] = min(n, self.trans.tops.get(name, n))

    # ------------------------------------------------------------ solver
    def ask(self, pc, extra, ms=15000, model=False):
        key = (tuple(x.get_id() for x in pc), tuple(x.get_id() for x in extra), model)
        if key in self.cache:
            return self.cache[key][:2]
        if time.time() > self.deadline:
            raise Unsupported('time limit')
        t0 = time.time()
        m = None
        r, exact = intarith.check(list(pc) + list(extra), 3000, self.trans)
        if r == z3.unknown or r == z3.sat and not (exact and not model):
            s = z3.Solver()
            s.set('timeout', ms)
            s.add(*pc)
            s.add(*extra)
            r = s.check()
            m = s.model() if r == z3.sat else None
        dt = time.time() - t0
        self.solver_s += dt
        if getattr(self, 'trace', 0) and dt > self.trace:
            print('slow %.1f' % dt, r, [str(x)[:300] for x in extra])
        self.cache[key] = (r, m, pc, extra)
        return r, m

    def holds(self, st, goal):
        goal = S(goal)
        if z3.is_true(goal):
            return True
        if z3.is_false(goal):
            return self.ask(st.pc, [])[0] == z3.unsat
        return self.ask(st.pc, [z3.Not(goal)])[0] == z3.unsat

    def possible(self, st, cond):
        cond = S(cond)
        if z3.is_false(cond):
            return False
        return self.ask(st.pc, [cond])[0] != z3.unsat

    def prove(self, st, name, goal):
        if self.quiet:
            return
        name = '%s: %s' % (self.fname, name)
        o = self.obs.get(name)
        if o is None:
            o = self.obs[name] = Ob(name)
            self.order.append(name)
        if o.status == 'refuted':
            return
        t0 = time.time()
        goal = S(goal)
        if not z3.is_true(goal):
            r, m = self.ask(st.pc, [z3.Not(goal)], model=True)
            if r == z3.sat and st.fine and not self.vague(list(st.pc) + [goal]):
                o.status, o.detail, o.model = 'refuted', str(goal)[:600], str(m)[:1500]
            elif r != z3.unsat:
                o.status, o.detail = 'unknown', str(goal)[:600]
        o.s += time.time() - t0

    def vague(self, terms):
        """Whether a model may contradict the definition of a sum or recurrence of some loop."""
        names = set(f.name() for f in self.sums.values()) - self.known
        seen, todo = set(), list(terms) if names else []
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_app(t) and t.decl().name() in names:
                return True
            todo.extend(t.children())
        return False

    # ------------------------------------------------------------ memory
    def items(self, st, r):
        return st.mem.get(id(r), (r, ()))[1]

    def put(self, st, r, item):
        st.mem[id(r)] = (r, self.items(st, r) + (item,))

    def inside(self, st, p, n, what):
        if p.region is None:
            self.prove(st, '%s through a null pointer is unreachable' % what, z3.BoolVal(False))
            raise Unsupported('null pointer')
        if p.region.size is not None:
            size = p.region.size
            n = bv(n) if isinstance(n, int) else n
            self.prove(st, '%s inside %s' % (what, p.region.name),
                       z3.And(z3.ULE(n, size), z3.ULE(p.off, size - n)))

    def store(self, st, p, n, val):
        self.inside(st, p, n, 'every store stays')
        if p.region is not None and not p.region.writable:
            self.prove(st, 'no store into %s' % p.region.name, z3.BoolVal(False))
        self.put(st, p.region, W(norm(p.off), n, val))

    def load(self, st, p, n):
        """n bytes as a term, or the pointer stored there."""
        self.inside(st, p, n, 'every load stays')
        off = norm(p.off)
        for it in reversed(self.items(st, p.region)):
            if isinstance(it, W):
                d = diff(off, it.off)
                if d == 0 and it.n == n:
                    return it.val
                if d is not None and (d >= it.n and d + n <= 2**64):
                    continue
            elif self.apart(st, off, n, it):
                continue
            break
        else:
            if n == 8 and z3.is_bv_value(off) and off.as_long() in p.region.cells:
                return p.region.cells[off.as_long()]
        out = [self.byte(st, p.region, S(off + i)) for i in range(n)]
        return S(z3.Concat(*reversed(out))) if n > 1 else out[0]

    def span(self, it):
        if isinstance(it, W):
            return it.off, bv(it.n)
        if isinstance(it, Run):
            return it.off, it.len
        if it.total is not None and it.first is not None:
            return norm(it.o0 + it.first), norm(it.total - it.first)
        return it.o0, (it.total if it.total is not None else bv(it.c) * it.K)

    def apart(self, st, off, n, it):
        """Proved: bytes off .. off+n lie outside the item."""
        o, ln = self.span(it)
        d = diff(off, o)
        if d is not None and isinstance(it, W):
            return d >= it.n and d + n <= 2**64
        n = bv(n) if isinstance(n, int) else n
        return self.holds(st, z3.Or(z3.And(z3.UGE(off, o), z3.UGE(off - o, ln)), z3.And(z3.UGE(o, off), z3.UGE(o - off, n)), ln == 0))

    def byte(self, st, r, off, upto=None):
        its = self.items(st, r) if upto is None else upto
        off = norm(off)
        for pos in range(len(its) - 1, -1, -1):
            it = its[pos]
            rest = its[:pos]
            if isinstance(it, W):
                d = diff(off, it.off)
                if d is not None:
                    if d < it.n:
                        return self.part(it.val, it.n, d)
                    continue
                if self.apart(st, off, 1, it):
                    continue
                dd = S(off - it.off)
                older = self.byte(st, r, off, rest)
                out = older
                for i in range(it.n):
                    out = z3.If(dd == i, self.part(it.val, it.n, i), out)
                return out
            if self.apart(st, off, 1, it):
                continue
            if isinstance(it, Run):
                i = S(norm(off - it.off))
                if self.holds(st, z3.ULT(i, it.len)):
                    return it.byte(i)
                return z3.If(z3.ULT(i, it.len), it.byte(i), self.byte(st, r, off, rest))
            try:
                j, t = self.locate(st, it, off)
            except Summed:
                if not self.quiet:
                    raise
                self.fresh_n += 1
                d = z3.Function('later!%d' % self.fresh_n, W64, B8)
                self.later[d.name()] = (r, its[:pos + 1])
                return d(off)
            hit = z3.ULT(j, it.K)
            val = self.within(st, it, j, t)
            if val is None:
                continue
            if self.holds(st, hit):
                return val
            return z3.If(hit, val, self.byte(st, r, off, rest))
        return r.init(off)

    def settle(self, st, t):
        """Bytes looked up at arbitrary places during the analysis of a loop, now at places that are known."""
        if not self.later or isinstance(t, Ptr):
            return t
        seen, todo, sub = set(), [t], []
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().name() in self.later:
                r, its = self.later[x.decl().name()]
                sub.append((x, self.byte(st, r, x.arg(0), its)))
            todo.extend(x.children())
        return S(z3.substitute(t, *sub)) if sub else t

    def locate(self, st, it, off):
        """The iteration and the position in it of an address of a layer."""
        d = norm(off - it.o0)
        m = linear(d)
        if it.total is not None:
            for i, (t, c) in m.items():
                if i is not None and c == it.unit and t.decl().eq(it.c):
                    return t.arg(0), S(norm(d - bv(c) * t))
            raise Summed('address in a summed range')
        c = it.c
        k = m.get(None, (None, 0))[1]
        if k < c and all(v[1] % c == 0 for i, v in m.items() if i is not None):
            j = bv(0)
            for i, v in m.items():
                if i is not None:
                    j = j + bv(v[1] // c) * v[0]
            # exact when the multiple does not wrap
            j = S(j)
            if self.holds(st, z3.ULT(j, bv(2**64 // c))) and self.holds(st, bv(c) * j + k == d):
                return j, bv(k)
        return z3.UDiv(d, bv(c)), z3.URem(d, bv(c))

    def within(self, st, it, j, t):
        out = None
        for o, n, val in it.items:
            if n is None:                       # a run of symbolic length
                if not self.holds(st, z3.ULT(t, val(j).len)):
                    raise Unsupported('address in a summed range')
                return val(j).byte(t)
            v = val(j)
            if z3.is_bv_value(t):
                if o <= t.as_long() < o + n:
                    return self.part(v, n, t.as_long() - o)
            else:
                for i in range(n):
                    x = self.part(v, n, i)
                    out = x if out is None else z3.If(t == o + i, x, out)
        if out is None:
            return None
        if sum(n for _, n, _ in it.items) != it.c:
            raise Unsupported('gaps in a loop')
        return out

    @staticmethod
    def part(val, n, i):
        if isinstance(val, Ptr):
            raise Unsupported('byte of a pointer')
        return val if n == 1 else S(z3.Extract(8 * i + 7, 8 * i, val))

    # ------------------------------------------------------------ values
    def width(self, t):
        t = self.mod.ty(t)
        if t.kind == 'int':
            return t.n
        return {'float': 32, 'double': 64}[t.kind]

    def const(self, t):
        t = self.mod.ty(t)
        if t.kind == 'ptr':
            return Ptr(None, 0)
        if t.kind == 'struct':
            return tuple(self.const(x) for x in t.sub)
        if t.kind == 'array':
            return tuple(self.const(t.sub[0]) for _ in range(t.n))
        if self.width(t) == 1:
            return z3.BoolVal(False)
        return bv(0, self.width(t))

    def val(self, st, regs, v):
        k = v[0]
        if k == 'reg':
            return regs[v[1]]
        if k == 'int':
            w = self.width(v[2])
            return z3.BoolVal(bool(v[1])) if w == 1 else bv(v[1], w)
        if k == 'zero':
            return self.const(v[2])
        if k == 'undef':
            t = self.mod.ty(v[2])
            if t.kind == 'struct':
                return tuple(self.val(st, regs, ('undef', 0, x)) for x in t.sub)
            if t.kind == 'ptr':
                return Ptr(None, self.fresh('undef'))
            w = self.width(t)
            return z3.FreshBool('undef') if w == 1 else self.fresh('undef', w)
        if k == 'struct':
            return tuple(self.val(st, regs, x) for x in v[1])
        if k == 'global':
            return Ptr(self.glob(v[1]), 0)
        if k == 'cast':
            return self.cast(st, v[1], self.val(st, regs, v[2]), v[3])
        if k == 'gep':
            return self.gep(st, regs, v)
        if k == 'float':
            import struct
            w = self.width(v[2])
            d = struct.unpack('>d', bytes.fromhex(v[1][2:].rjust(16, '0')))[0] if v[1].startswith('0x') else float(v[1])
            return bv(int.from_bytes(struct.pack('>f' if w == 32 else '>d', d), 'big'), w)
        raise Unsupported('operand ' + k)

    def glob(self, name):
        if name not in self.globals:
            r = self.globals[name] = Region('@' + name, None, False)
            r.sym = name
            text = getattr(self.mod, 'strings', {}).get(name)
            if text is not None:
                def init(off):
                    off = S(off)
                    if z3.is_bv_value(off):
                        return bv(ord(text[off.as_long()]) if off.as_long() < len(text) else 0, 8)
                    out = bv(0, 8)
                    for i, x in enumerate(text):
                        out = z3.If(off == i, bv(ord(x), 8), out)
                    return out
                r.init = init
        return self.globals[name]

    def gep(self, st, regs, v):
        _, bt, ops = v
        p = self.val(st, regs, ops[0])
        off = p.off
        t = bt
        for k, o in enumerate(ops[1:]):
            i = self.val(st, regs, o)
            if k == 0:
                off = off + self.wide(i) * bv(self.mod.size(bt))
                continue
            t = self.mod.ty(t)
            if t.kind == 'struct':
                n = S(i).as_long()
                off = off + bv(self.mod.field(t, n))
                t = t.sub[n]
            else:
                off = off + self.wide(i) * bv(self.mod.size(t.sub[0]))
                t = t.sub[0]
        return Ptr(p.region, norm(off))

    @staticmethod
    def wide(i):
        return i if i.size() == 64 else z3.SignExt(64 - i.size(), i)

    def cast(self, st, f, a, t):
        if f == 'ptrtoint':
            r = a.num()
            if self.width(t) != 64:
                raise Unsupported('narrow pointer')
            if a.region is not None and hasattr(a.region, 'sym'):
                st.assume(a.region.base != 0)
            return r
        if f == 'inttoptr':
            a = norm(a)
            if z3.is_bv_value(a):
                return Ptr(None, a)
            for _, (r, _x) in sorted(st.mem.items(), key=lambda x: x[1][0].name):
                # the address is in the object its base occurs in
                if self.mentions(a, r.base):
                    return Ptr(r, norm(a - r.base))
            raise Unsupported('integer as a pointer')
        if f == 'bitcast':
            return a
        w = self.width(t)
        if z3.is_bool(a):
            if f == 'zext':
                return z3.If(a, bv(1, w), bv(0, w))
            if f == 'sext':
                return z3.If(a, bv(-1, w), bv(0, w))
        if f == 'zext':
            return S(z3.ZeroExt(w - a.size(), a))
        if f == 'sext':
            return S(z3.SignExt(w - a.size(), a))
        if w == 1:
            return S(z3.Extract(0, 0, a) == 1)
        return S(z3.Extract(w - 1, 0, a))

    def mentions(self, t, x):
        seen, todo = set(), [t]
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if t.eq(x):
                return True
            todo.extend(t.children())
        return False

    def binop(self, st, f, a, b):
        if z3.is_bool(a):
            return S({'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[f](a, b))
        if f == 'add':
            return norm(a + b) if a.size() == 64 else S(a + b)
        if f == 'sub':
            return norm(a - b) if a.size() == 64 else S(a - b)
        if f == 'and' and z3.is_bv_value(S(b)) and a.size() == 64:
            return self.mask(st, a, S(b).as_long())
        if f in ('udiv', 'sdiv', 'urem', 'srem'):
            self.prove(st, 'no division by zero', b != 0)
        if f in ('shl', 'lshr', 'ashr'):
            self.prove(st, 'every shift is narrower than its operand', z3.ULT(b, a.size()))
        g = {'mul': lambda: a * b, 'udiv': lambda: z3.UDiv(a, b), 'sdiv': lambda: a / b, 'urem': lambda: z3.URem(a, b),
             'srem': lambda: z3.SRem(a, b), 'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b), 'ashr': lambda: a >> b,
             'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b}[f]
        return S(g())

    def mask(self, st, a, c):
        """Rounding down to a power of two commutes with an aligned base and aligned constants."""
        low = (~c) & (2**64 - 1)
        if low & (low + 1) or low > 7:
            return S(a & bv(c))
        m = linear(S(a))
        keep = bv(0)
        rest = bv(0)
        bases = set(r.base.get_id() for r, _ in st.mem.values())
        for i, (v, k) in m.items():
            if i is None:
                keep, rest = keep + bv(k & c), rest + bv(k & low)
            elif i in bases or k % (low + 1) == 0:
                keep = keep + bv(k) * v
            else:
                rest = rest + bv(k) * v
        rest = S(rest)
        if z3.is_bv_value(rest):
            rest = bv(rest.as_long() & c)
        else:
            rest = S(rest & bv(c))
        return norm(keep + rest)

    def compare(self, st, p, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if a.region is b.region:
                a, b = a.off, b.off
            elif p in ('eq', 'ne') and (a.region is None or b.region is None):
                q = a if a.region is not None else b
                z = b if a.region is not None else a
                if z3.is_bv_value(S(z.off)) and S(z.off).as_long() == 0:
                    return z3.BoolVal(p == 'ne')      # an object is not at address zero
                raise Unsupported('comparison of pointers to different objects')
            else:
                raise Unsupported('comparison of pointers to different objects')
        if z3.is_bool(a):
            return {'eq': a == b, 'ne': a != b}[p]
        return S({'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
                  'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b,
                  'sgt': lambda: a > b, 'sge': lambda: a >= b}[p]())

    # ------------------------------------------------------------ control
    def call(self, name, args, st):
        """Runs a function; list of (state, result)."""
        fn = self.mod.fns[name]
        self.depth += 1
        if self.depth > 40:
            raise Unsupported('recursion')
        regs = {a: v for (a, _), v in zip(fn.args, args)}
        out = self.go(fn, fn.entry, None, st, regs, None)
        self.depth -= 1
        return [(s, v) for _, s, v in out]

    def loops(self, fn):
        if fn.name not in self.loops_cache:
            code = self.mod.code(fn)
            succ = {l: self.succ(b[-1]) for l, b in code.items()}
            pred = {}
            for l, ss in succ.items():
                for s in ss:
                    pred.setdefault(s, []).append(l)
            back, state = [], {}

            def dfs(root):
                stack = [(root, iter(succ[root]))]
                state[root] = 1
                while stack:
                    l, it = stack[-1]
                    for s in it:
                        if s not in state:
                            state[s] = 1
                            stack.append((s, iter(succ[s])))
                            break
                        if state[s] == 1:
                            back.append((l, s))
                    else:
                        state[l] = 2
                        stack.pop()
            dfs(fn.entry)
            loops = {}
            for latch, h in back:
                body = loops.setdefault(h, {h})
                todo = [latch]
                while todo:
                    x = todo.pop()
                    if x not in body:
                        body.add(x)
                        todo.extend(pred.get(x, []))
            self.loops_cache[fn.name] = loops
        return self.loops_cache[fn.name]

    @staticmethod
    def succ(i):
        if i.op == 'jump':
            return [i.to]
        if i.op == 'br':
            return [i.a, i.b]
        if i.op == 'switch':
            return [i.default] + [l for _, l in i.cases]
        if i.op == 'call' and i.to:
            return [i.to]
        return []

    def go(self, fn, lab, prev, st, regs, stop):
        """Executes from the start of a block: list of ('ret', state, value), or of ('latch' | 'exit', ...) in a loop body."""
        code = self.mod.code(fn)
        loops = self.loops(fn)
        first = stop is not None and prev == stop[1]
        while True:
            if stop is not None and not first:
                if lab == stop[0]:
                    return [('latch', st, regs, prev)]
                if lab not in stop[2]:
                    return [('exit', st, regs, prev, lab)]
            if lab in loops and not (stop is not None and lab == stop[0]) and prev not in loops[lab]:
                return self.unroll(fn, lab, prev, st, regs, stop)
            ins = code[lab]
            if not (first and lab == stop[0]):
                new = {}
                for i in ins:
                    if i.op != 'phi':
                        break
                    new[i.dst] = [self.val(st, regs, v) for v, l in i.src if l == prev][0]
                regs.update(new)
            first = False
            r = self.straight(fn, lab, [i for i in ins if i.op != 'phi'], 0, st, regs, stop)
            if isinstance(r, list):
                return r
            prev, lab = lab, r

    def fork(self, fn, st, regs, cond):
        """The feasible sides of a condition."""
        cond = S(cond)
        out = []
        for side, c in ((True, cond), (False, S(z3.Not(cond)))):
            if z3.is_false(c):
                continue
            if z3.is_true(c) or self.possible(st, c):
                s = st.copy()
                s.assume(c)
                out.append((side, s, dict(regs)))
        return out

    def straight(self, fn, lab, ins, k, st, regs, stop):
        """Label of the next block, or the list of outcomes after forking."""
        while True:
            i = ins[k]
            k += 1
            op = i.op
            if op == 'bin':
                regs[i.dst] = self.binop(st, i.f, self.val(st, regs, i.a), self.val(st, regs, i.b))
            elif op == 'icmp':
                regs[i.dst] = self.compare(st, i.p, self.val(st, regs, i.a), self.val(st, regs, i.b))
            elif op == 'cast':
                regs[i.dst] = self.cast(st, i.f, self.val(st, regs, i.a), i.t)
            elif op == 'copy':
                regs[i.dst] = self.val(st, regs, i.a)
            elif op == 'gep':
                regs[i.dst] = self.gep(st, regs, i.v)
            elif op == 'load':
                t = self.mod.ty(i.t)
                v = self.load(st, self.val(st, regs, i.p), self.mod.size(t))
                if t.kind == 'ptr' and not isinstance(v, Ptr):
                    v = self.cast(st, 'inttoptr', v, t)
                elif t.kind != 'ptr' and isinstance(v, Ptr):
                    v = v.num()
                if i.bool:
                    st.assume(z3.ULT(v, 2))           # an object of type bool
                if t.kind == 'int' and t.n == 1:
                    v = S(z3.Extract(0, 0, v) == 1)
                regs[i.dst] = v
            elif op == 'store':
                v = self.val(st, regs, i.v)
                if z3.is_bool(v):
                    v = z3.If(v, bv(1, 8), bv(0, 8))
                if isinstance(v, tuple):
                    raise Unsupported('store of an aggregate')
                self.store(st, self.val(st, regs, i.p), self.mod.size(i.t), v)
            elif op == 'extractvalue':
                regs[i.dst] = self.val(st, regs, i.a)[i.k]
            elif op == 'insertvalue':
                a = list(self.val(st, regs, i.a))
                a[i.k] = self.val(st, regs, i.v)
                regs[i.dst] = tuple(a)
            elif op == 'alloca':
                self.fresh_n += 1
                r = Region('local %d' % self.fresh_n, self.mod.size(i.t))
                st.mem[id(r)] = (r, ())
                st.assume(r.base & 7 == 0)
                regs[i.dst] = Ptr(r, 0)
            elif op == 'jump':
                return i.to
            elif op in ('br', 'select'):
                c = self.val(st, regs, i.c)
                if op == 'select':
                    a, b = self.val(st, regs, i.a), self.val(st, regs, i.b)
                    m = self.merge(c, a, b)
                    if m is not None:
                        regs[i.dst] = m
                        continue
                out = []
                sides = self.fork(fn, st, regs, c)
                for side, s, rg in sides:
                    if op == 'select':
                        rg[i.dst] = a if side else b
                        if len(sides) == 1:
                            st.pc, regs[i.dst] = s.pc, rg[i.dst]
                            break
                        nxt = self.straight(fn, lab, ins, k, s, rg, stop)
                    else:
                        nxt = i.a if side else i.b
                        if len(sides) == 1:
                            st.pc = s.pc
                            return nxt
                    out += nxt if isinstance(nxt, list) else self.go(fn, nxt, lab, s, rg, stop)
                if op == 'select' and len(sides) == 1:
                    continue
                return out
            elif op == 'switch':
                v = self.val(st, regs, i.v)
                out, rest = [], st
                for cv, l in i.cases:
                    c = v == self.val(st, regs, cv)
                    if self.possible(rest, c):
                        s = rest.copy()
                        s.assume(c)
                        out += self.go(fn, l, lab, s, dict(regs), stop)
                    rest = rest.copy()
                    rest.assume(z3.Not(c))
                if self.possible(rest, z3.BoolVal(True)):
                    out += self.go(fn, i.default, lab, rest, dict(regs), stop)
                return out
            elif op == 'ret':
                return [('ret', st, None if i.v is None else self.val(st, regs, i.v))]
            elif op == 'unreachable':
                self.prove(st, 'assertions hold and unreachable code is not reached', z3.BoolVal(False))
                return []
            elif op == 'call':
                res = self.invoke(i, [None if a is None else self.val(st, regs, a) for a in i.args], st)
                if len(res) == 1:
                    s, v = res[0]
                    st.pc, st.mem, st.fine = s.pc, s.mem, s.fine
                    if i.dst:
                        regs[i.dst] = v
                    if i.to:
                        return i.to
                    continue
                out = []
                for s, v in res:
                    rg = dict(regs)
                    if i.dst:
                        rg[i.dst] = v
                    nxt = i.to if i.to else self.straight(fn, lab, ins, k, s, rg, stop)
                    out += nxt if isinstance(nxt, list) else self.go(fn, nxt, lab, s, rg, stop)
                return out
            else:
                raise Unsupported('instruction ' + op)

    def merge(self, c, a, b):
        if isinstance(a, tuple):
            m = [self.merge(c, x, y) for x, y in zip(a, b)]
            return None if None in m else tuple(m)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if a.region is b.region:
                return Ptr(a.region, S(z3.If(c, a.off, b.off)))
            return None
        return S(z3.If(c, a, b))

    def invoke(self, i, args, st):
        f = i.f
        for pat, h in self.calls.items():
            if callable(pat) and pat(f) or pat == f:
                return h(self, st, args, i)
        if f.startswith('llvm.'):
            return [(st, self.intrinsic(f, args, st))]
        if f in self.mod.fns:
            return self.call(f, args, st)
        if f == '__assert_fail':
            self.prove(st, 'assertions hold and unreachable code is not reached', z3.BoolVal(False))
            return []
        raise Unsupported('call of ' + f)

    def intrinsic(self, f, args, st):
        n = f.split('.')[1]
        if n == 'bswap':
            a = args[0]
            return S(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, a) for i in range(a.size() // 8)]))
        if n in ('lifetime', 'assume', 'dbg', 'experimental'):
            return None
        if n in ('umin', 'umax', 'smin', 'smax'):
            a, b = args
            c = {'umin': z3.ULT, 'umax': z3.UGT, 'smin': lambda a, b: a < b, 'smax': lambda a, b: a > b}[n](a, b)
            return S(z3.If(c, a, b))
        if n in ('fshl', 'fshr'):
            a, b, c = args
            w = a.size()
            two = z3.Concat(a, b)
            sh = z3.ZeroExt(w, z3.URem(c, bv(w, w)))
            if n == 'fshl':
                return S(z3.Extract(2 * w - 1, w, two << sh))
            return S(z3.Extract(w - 1, 0, z3.LShR(two, sh)))
        if n == 'usub' or n == 'uadd':
            a, b = args
            return S(z3.If(z3.ULT(a, b), bv(0, a.size()), a - b)) if n == 'usub' else None
        if n == 'memset':
            p, v, ln = args[:3]
            self.inside(st, p, ln, 'every store stays')
            self.put(st, p.region, Run(norm(p.off), S(ln), lambda i: v))
            return None
        if n in ('memcpy', 'memmove'):
            d, s, ln = args[:3]
            ln = S(ln)
            if z3.is_bv_value(ln) and ln.as_long() <= 64 and z3.is_bv_value(S(s.off)) and not self.items(st, s.region) \
                    and s.region.cells:
                # an object holding pointers
                self.inside(st, s, ln, 'every load stays')
                self.inside(st, d, ln, 'every store stays')
                k, size = 0, ln.as_long()
                while k < size:
                    step = 8 if size - k >= 8 else 1
                    self.put(st, d.region, W(norm(d.off + k), step, self.load(st, Ptr(s.region, s.off + k), step)))
                    k += step
                return None
            self.inside(st, s, ln, 'every load stays')
            self.inside(st, d, ln, 'every store stays')
            old = self.items(st, s.region)
            r, so = s.region, s.off
            self.put(st, d.region, Run(norm(d.off), ln, lambda i: self.byte(st, r, so + i, old)))
            return None
        raise Unsupported('intrinsic ' + f)

    # ------------------------------------------------------------ loops
    def unroll(self, fn, h, prev, st, regs, stop):
        """The first iterations one by one, as long as constants decide whether there is one more."""
        body = self.loops(fn)[h]
        code = self.mod.code(fn)[h]
        phis = [i for i in code if i.op == 'phi']
        rest = [i for i in code if i.op != 'phi']
        plain = rest[-1].op == 'br' and all(i.op in ('bin', 'icmp', 'cast', 'copy') for i in rest[:-1])
        res, todo = [], [(st, regs, {i.dst: [self.val(st, regs, v) for v, l in i.src if l == prev][0] for i in phis}, 0)]
        while todo:
            s, rg, init, n = todo.pop()
            rg = dict(rg)
            go = False
            if plain and n < 16:
                trial, regs2 = s.copy(), dict(rg)
                regs2.update(init)
                self.quiet += 1
                try:
                    self.straight(fn, h, rest[:-1] + [JUMP], 0, trial, regs2, None)
                finally:
                    self.quiet -= 1
                c = S(self.val(trial, regs2, rest[-1].c))
                go = z3.is_true(c) or z3.is_false(c)
            if not go:
                res += self.loop(fn, h, init, s, rg, stop)
                continue
            rg.update(init)
            outs = self.go(fn, h, '!enter', s, rg, (h, '!enter', body))
            for o in outs:
                if o[0] == 'latch':
                    _, s2, rg2, frm = o
                    todo.append((s2, rg2, {i.dst: [self.val(s2, rg2, v) for v, l in i.src if l == frm][0] for i in phis}, n + 1))
            res += self.leave(fn, [o for o in outs if o[0] != 'latch'], stop)
        return res

    def loop(self, fn, h, init, st, regs, stop):
        loops = self.loops(fn)
        code = self.mod.code(fn)
        body = loops[h]
        phis = [i for i in code[h] if i.op == 'phi']

        def iterate(s, values):
            rg = dict(regs)
            rg.update(values)
            return self.go(fn, h, '!enter', s.copy(), rg, (h, '!enter', body))

        def nexts(s, rg, frm):
            return {i.dst: [self.val(s, rg, v) for v, l in i.src if l == frm][0] for i in phis}

        def like(v, name):
            if isinstance(v, Ptr):
                return Ptr(v.region, self.fresh(name))
            if z3.is_bool(v):
                return z3.FreshBool(name)
            return self.fresh(name, v.size())

        def term(v):
            return v.off if isinstance(v, Ptr) else v

        def added(s, base):
            out = []
            for key, (r, its) in s.mem.items():
                old = base.mem.get(key, (r, ()))[1]
                if its[:len(old)] != old:
                    raise Unsupported('memory history')
                if key in base.mem:
                    out += [(r, x) for x in its[len(old):]]
            return out
        self.quiet += 1
        # 1. one iteration from arbitrary values: which variables step how, which cells are written every time
        cells = {}
        for _ in range(3):
            syms = {d: like(v, 'phi') for d, v in init.items()}
            s1 = st.copy()
            csym = {}
            for key, (r, off, n, v0) in cells.items():
                csym[key] = like(v0, 'cell')
                self.put(s1, r, W(off, n, csym[key]))
            names = [term(v) for v in list(syms.values()) + list(csym.values())]
            outs = iterate(s1, dict(syms))
            latches = [o for o in outs if o[0] == 'latch']
            more = False
            for o in latches:
                for r, it in added(o[1], s1):
                    if isinstance(it, W) and not hasattr(r, 'log') and not any(self.mentions(it.off, x) for x in names):
                        key = (id(r), S(it.off).sexpr(), it.n)
                        if key not in cells:
                            cells[key] = (r, it.off, it.n, self.load(st, Ptr(r, it.off), it.n))
                            more = True
            if not more:
                break
        else:
            raise Unsupported('cells of a loop')
        if not latches:
            # the back edge is never taken
            self.quiet -= 1
            outs = iterate(st, dict(init))
            return self.leave(fn, outs, stop)
        k = self.fresh('k')
        self.most(st, k, 2**62)
        allsym = {('r', d): (v, init[d]) for d, v in syms.items()}
        allsym.update({('c', key): (v, cells[key][3]) for key, v in csym.items()})
        nxt = {}
        for o in latches:
            n = nexts(o[1], o[2], o[3])
            vals = {('r', d): n[d] for d in n}
            for key in cells:
                vals[('c', key)] = self.load(o[1], Ptr(cells[key][0], cells[key][1]), cells[key][2])
            for key, v in vals.items():
                nxt.setdefault(key, []).append(v)
        closed, recs = {}, []
        sub = []
        pending = dict(allsym)
        # constant steps
        for key, (u, v0) in list(pending.items()):
            if z3.is_bool(term(u)):
                continue
            ds = set()
            for v in nxt[key]:
                same = isinstance(u, Ptr) == isinstance(v, Ptr) and (not isinstance(u, Ptr) or v.region is u.region)
                ds.add(diff(term(v), term(u)) if same and term(u).size() == 64 else (
                    S(term(v) - term(u)).as_long() if same and z3.is_bv_value(S(term(v) - term(u))) else None))
            if len(ds) == 1 and None not in ds:
                c = ds.pop()
                w = term(u).size()
                kk = k if w == 64 else z3.Extract(w - 1, 0, k)
                t = S(term(v0) + bv(c, w) * kk) if w != 64 else norm(term(v0) + bv(c) * k)
                closed[key] = Ptr(u.region, t) if isinstance(u, Ptr) else t
                sub.append((term(u), t))
                del pending[key]
        conds = [z3.And(*o[1].pc[len(s1.pc):]) for o in latches]
        step = {}
        for key in list(pending):
            u = pending[key][0]
            v = nxt[key][-1]
            for cnd, w in zip(conds[:-1], nxt[key][:-1]):
                v = self.merge(cnd, w, v)
                if v is None:
                    raise Unsupported('pointer changes its object')
            if isinstance(u, Ptr) and (not isinstance(v, Ptr) or v.region is not u.region):
                raise Unsupported('pointer changes its object')
            step[key] = z3.substitute(term(v), *sub) if sub else term(v)
        # values of the previous iteration
        again = True
        while again:
            again = False
            for key, (u, v0) in list(pending.items()):
                if any(self.mentions(step[key], term(x)) for x, _ in pending.values()):
                    continue
                t = S(z3.If(k == 0, term(v0), z3.substitute(step[key], (k, k - 1))))
                closed[key] = Ptr(u.region, t) if isinstance(u, Ptr) else t
                sub.append((term(u), t))
                del pending[key]
                for key2 in pending:
                    step[key2] = z3.substitute(step[key2], (term(u), t))
                again = True
        # recurrences, as functions of the iteration
        rec = {}
        for key, (u, v0) in pending.items():
            d = norm(step[key] - term(u)) if z3.is_bv(term(u)) and term(u).size() == 64 else None
            if d is not None and not any(self.mentions(d, term(x)) for x, _ in pending.values()):
                d = z3.substitute(d, (k, z3.BitVec('j#', 64)))
                g = self.unit(d)
                f = self.sumfn(d)
                rec[key] = (f, norm(term(v0) + bv(g) * f(k)))
                st.assume(f(bv(0)) == 0)
            elif len([x for x, _ in pending.values() if self.mentions(step[key], term(x))]) == 1 and self.mentions(step[key], term(u)):
                f = self.recfn(term(v0), z3.substitute(step[key], (k, z3.BitVec('j#', 64)), (term(u), z3.BitVec('u#', 64)))
                               if z3.is_bv(term(u)) and term(u).size() == 64 else step[key], term(u).sort())
                rec[key] = (f, f(k))
                st.assume(f(bv(0)) == term(v0))
            else:
                self.fresh_n += 1
                f = z3.Function('rec %d' % self.fresh_n, W64, term(u).sort())
                rec[key] = (f, f(k))
                st.assume(f(bv(0)) == term(v0))
        sub2 = [(term(u), rec[key][1]) for key, (u, _) in pending.items()]
        for key, (u, v0) in pending.items():
            f, t = rec[key]
            nx = z3.substitute(step[key], *sub2)
            if t.eq(f(k)):
                st.assume(f(k + 1) == nx)
            else:
                d = norm(z3.substitute(norm(step[key] - term(u)), *sub2))
                st.assume(f(k + 1) == f(k) + self.divided(d, self.unit(d)))
            for x in self.sum_facts(f, k):
                st.assume(x)
            closed[key] = Ptr(u.region, t) if isinstance(u, Ptr) else t
            recs.append((u, v0, t))
        sub += sub2
        # 2. candidate invariants
        exits = [o for o in outs]
        cands = []
        bounds = set()

        def cand(t):
            t = S(t)
            if not z3.is_true(t) and not any(t.eq(x) for x in cands):
                cands.append(t)
        for key, (u, v0) in allsym.items():
            if not isinstance(v0, Ptr) and z3.is_bv(term(v0)) and term(v0).size() >= 32:
                n = term(v0) if term(v0).size() == 64 else S(z3.ZeroExt(64 - term(v0).size(), term(v0)))
                cand(z3.ULT(k, n))
                cand(z3.ULE(k, n))
        for o in exits:
            for f in o[1].pc[len(s1.pc):]:
                for a, b in self.compared(f):
                    a, b = (z3.substitute(x, *sub) if sub else x for x in (a, b))
                    a, b = S(a), S(b)
                    for x, y in ((a, b), (b, a)):
                        if self.mentions(x, k) and not self.mentions(y, k) and x.size() == 64:
                            cand(z3.ULT(x, y))
                            cand(z3.ULE(x, y))
                            # v0 + c*k against y
                            m = linear(norm(x))
                            ck = [c for i, (t, c) in m.items() if i is not None and t.eq(k)]
                            if ck and 0 < ck[0] < 2**32:
                                d = norm(y - x + bv(ck[0]) * k)
                                for q in (z3.UDiv(d, bv(ck[0])), z3.UDiv(d - 1, bv(ck[0])) + 1) if ck[0] > 1 else (d,):
                                    cand(z3.ULT(k, q))
                                    cand(z3.ULE(k, q))
                for a, b in self.compared(f, 32):
                    a, b = (S(z3.substitute(x, *sub) if sub else x) for x in (a, b))
                    for x, y in ((a, b), (b, a)):
                        if self.mentions(x, k) and not self.mentions(y, k):
                            cand(z3.ULE(k, z3.ZeroExt(32, y)))
        for u, v0, t in recs:
            if isinstance(u, Ptr):
                cand(z3.ULE(term(v0), t))
                if u.region.size is not None:
                    cand(z3.ULE(t, u.region.size))
                for x in self.ptrs(regs, u.region):
                    cand(z3.ULE(t, x.off))
                cand(z3.ULE(k, t - term(v0)))
                for g in (2, 4, 8):
                    cand(t & (g - 1) == 0)
        for key, t in closed.items():
            if isinstance(t, Ptr) and t.region is not None and t.region.size is not None and self.mentions(t.off, k):
                cand(z3.ULE(t.off, t.region.size))
        # 3. bytes written per iteration
        sigs = []
        for o in latches:
            sig = []
            for r, it in added(o[1], s1):
                if isinstance(it, W):
                    if (id(r), S(it.off).sexpr(), it.n) in cells:
                        continue
                    val = it.val if isinstance(it.val, Ptr) else (z3.substitute(it.val, *sub) if sub else it.val)
                    sig.append((r, norm(z3.substitute(it.off, *sub)), it.n, val))
                elif isinstance(it, Run):
                    sig.append((r, norm(z3.substitute(it.off, *sub)), None, self.sub_run(it, sub)))
                else:
                    sig.append((r, norm(z3.substitute(it.o0, *sub)), 'layer', self.sub_layer(it, sub)))
            sigs.append(sig)
        if len(set(tuple((id(r), o.sexpr(), str(n)) for r, o, n, _ in s) for s in sigs)) > 1:
            raise Unsupported('iterations writing different places')
        sig = sigs[0]
        if len(sigs) > 1 and any(n is None or n == 'layer' for _, _, n, _ in sig):
            raise Unsupported('iterations writing runs')
        if len(sigs) > 1 and sig:
            conds = [z3.And(*[z3.substitute(f, *sub) if sub else f for f in o[1].pc[len(s1.pc):]]) for o in latches]
            merged = []
            for idx in range(len(sig)):
                val = sigs[-1][idx][3]
                for cnd, s in zip(conds[:-1], sigs[:-1]):
                    val = z3.If(cnd, s[idx][3], val)
                merged.append(sig[idx][:3] + (val,))
            sig = merged
        def summary():
            layers = {}
            for r, o, n, val in sig:
                layers.setdefault(id(r), (r, []))[1].append((o, n, val))
            head = st.copy()
            for r, its in layers.values():
                for lay in self.layer(st, r, its, k):
                    self.put(head, r, lay)
            for key, (r, off, n, v0) in cells.items():
                self.put(head, r, W(off, n, closed[('c', key)]))
            return head
        head = summary()
        values = {d: closed[('r', d)] for d in init}
        # 4. greatest inductive subset
        zero = [(k, bv(0))]
        cands = [t for t in cands if self.holds(st, z3.substitute(t, *zero))]
        for _ in range(12):
            s2 = head.copy()
            s2.pc += cands
            outs = iterate(s2, dict(values))
            bad = []
            for o in outs:
                if o[0] != 'latch':
                    continue
                step = [(k, k + 1)]
                for t in cands:
                    if not any(t is b for b in bad) and not self.holds(o[1], z3.substitute(t, *step)):
                        bad.append(t)
            if not bad:
                break
            cands = [t for t in cands if not any(t is b for b in bad)]
        else:
            raise Unsupported('invariants do not converge')
        if self.later and any(n not in (None, 'layer') for _, _, n, _ in sig):
            known = st.copy()
            known.pc += cands
            sig = [(r, o, n, val if n in (None, 'layer') else self.settle(known, val)) for r, o, n, val in sig]
            head = summary()
        self.quiet -= 1
        # 5. the arbitrary iteration, with its obligations
        s2 = head.copy()
        s2.pc += cands
        outs = iterate(s2, dict(values))
        name = 'loop %s of %s' % (self.loop_no(fn, h), self.short(fn.name))
        for o in outs:
            if o[0] != 'latch':
                continue
            n = nexts(o[1], o[2], o[3])
            for d in init:
                self.prove(o[1], '%s: closed forms are kept' % name,
                           term(n[d]) == z3.substitute(term(closed[('r', d)]), (k, k + 1)))
            for key, (r, off, m, v0) in cells.items():
                self.prove(o[1], '%s: closed forms are kept' % name,
                           term(self.load(o[1], Ptr(r, off), m)) == z3.substitute(term(closed[('c', key)]), (k, k + 1)))
            for t in cands:
                self.prove(o[1], '%s: invariants are kept' % name, z3.substitute(t, (k, k + 1)))
            self.prove(o[1], '%s: terminates' % name, z3.ULT(k, bv(2**62)))
            new = [(r, it) for r, it in added(o[1], s2)
                   if not (isinstance(it, W) and (id(r), S(it.off).sexpr(), it.n) in cells)]
            if len(new) != len(sig):
                raise Unsupported('iterations writing different places')
            for (r, it), (r0, off, n, val) in zip(new, sig):
                self.prove(o[1], '%s: writes follow their closed form' % name, self.same_write(r, it, r0, off, n, val))
        return self.leave(fn, outs, stop)

    def loop_no(self, fn, h):
        return 1 + sorted(self.loops(fn), key=lambda x: int(x[1:]) if x[1:].isdigit() else 0).index(h)

    @staticmethod
    def short(n):
        return n if len(n) < 40 else n[:40]

    def same_write(self, r, it, r0, off, n, val):
        i = self.fresh('i')
        if r is not r0:
            return z3.BoolVal(False)
        if isinstance(it, W):
            return z3.And(it.off == off, it.val == val) if it.n == n else z3.BoolVal(False)
        if isinstance(it, Run) and n is None:
            return z3.And(it.off == off, it.len == val.len, z3.Implies(z3.ULT(i, it.len), it.byte(i) == val.byte(i)))
        if isinstance(it, Layer) and n == 'layer' and it.c == val.c and len(it.items) == len(val.items):
            return z3.And(it.o0 == off, it.K == val.K, *[z3.Implies(z3.ULT(i, it.K), a[2](i) == b[2](i))
                                                         for a, b in zip(it.items, val.items)])
        return z3.BoolVal(False)

    def leave(self, fn, outs, stop):
        res = []
        for o in outs:
            if o[0] == 'latch':
                continue
            if o[0] == 'ret':
                res.append(o)
            else:
                _, s, rg, frm, to = o
                res += self.go(fn, to, frm, s, rg, stop)
        return res

    def ptrs(self, regs, r):
        return [v for v in regs.values() if isinstance(v, Ptr) and v.region is r]

    def compared(self, f, w=64):
        """Pairs of terms of w bits compared in a condition."""
        out, todo = [], [f]
        while todo:
            t = todo.pop()
            if z3.is_bool(t) and t.num_args() == 2 and z3.is_bv(t.arg(0)):
                if t.arg(0).size() == w:
                    out.append((t.arg(0), t.arg(1)))
            elif z3.is_bool(t):
                todo.extend(t.children())
        return out

    @staticmethod
    def canon(t):
        """A text equal for equal linear forms."""
        if not z3.is_bv(t) or t.size() != 64:
            return S(t).sexpr()
        return ' '.join(sorted('%d*%s' % (c, '1' if i is None else x.sexpr()) for i, (x, c) in linear(S(t)).items()))

    @staticmethod
    def unit(t):
        """The largest of 8, 4, 2, 1 dividing every coefficient."""
        g = 8
        for _, c in linear(S(t)).values():
            while c % g:
                g //= 2
        return g

    @staticmethod
    def divided(t, g):
        out = bv(0)
        for i, (x, c) in linear(S(t)).items():
            out = out + (bv(c // g) if i is None else bv(c // g) * x)
        return norm(out)

    def sumfn(self, term):
        """The function f(0) = 0, f(j# + 1) = f(j#) + term / unit(term)."""
        key = self.canon(term)
        if key not in self.sums:
            self.sums[key] = z3.Function('sum%d' % len(self.sums), W64, W64)
        return self.sums[key]

    def recfn(self, v0, step, sort=W64):
        """The function f(0) = v0, f(j# + 1) = step of u# = f(j#)."""
        key = (self.canon(v0), self.canon(step))
        if key not in self.sums:
            self.sums[key] = z3.Function('rec%d' % len(self.sums), W64, sort)
            self.recs.append((self.sums[key], v0, key[1]))
        return self.sums[key]

    def sub_run(self, it, sub):
        byte = it.byte
        if not sub:
            return it
        return Run(z3.substitute(it.off, *sub), z3.substitute(it.len, *sub), lambda i: z3.substitute(byte(i), *sub), it.tag)

    def sub_layer(self, it, sub):
        if not sub:
            return it

        def bind(val):
            return lambda j: z3.substitute(val(j), *sub)
        if any(n is None for _, n, _ in it.items):
            raise Unsupported('nested summed loops')
        return Layer(z3.substitute(it.o0, *sub), it.c, z3.substitute(it.K, *sub), [(o, n, bind(v)) for o, n, v in it.items])

    def layer(self, st, r, its, k):
        """The layers of k iterations from the writes of iteration k."""
        runs = [(o, n, v) for o, n, v in its if n is None or n == 'layer']
        ws = [(o, n, v) for o, n, v in its if not (n is None or n == 'layer')]
        out = []
        for o, n, v in runs:
            m = linear(o)
            ks = [(t, c) for i, (t, c) in m.items() if i is not None and self.mentions(t, k)]
            if n is None and len(ks) == 1 and ks[0][1] in (1, 2, 4, 8) and ks[0][0].num_args() == 1 and ks[0][0].arg(0).eq(k):
                f, g = ks[0][0].decl(), ks[0][1]
                o0 = norm(o - bv(g) * ks[0][0])
                first = [v0 for h, v0, _ in self.recs if h.eq(f)]
                out.append(Layer(o0, f, k, [(0, None, self.at_run(v, k))], total=norm(bv(g) * f(k)), unit=g,
                                 first=norm(bv(g) * first[0]) if first else None))
                continue
            # an affine run of constant length, byte by byte
            if len(ks) == 1 and ks[0][0].eq(k):
                c = ks[0][1]
                o0 = norm(o - bv(c) * k)
                if n is None and z3.is_bv_value(S(v.len)) and S(v.len).as_long() <= min(c, 512):
                    byte = v.byte
                    ws += [(norm(o + b), 1, S(byte(bv(b)))) for b in range(S(v.len).as_long())]
                    continue
                if n == 'layer' and z3.is_bv_value(S(v.K)) and S(v.K).as_long() * v.c <= min(c, 512):
                    for j in range(S(v.K).as_long()):
                        ws += [(norm(o + j * v.c + t), m2, S(val(bv(j)))) for t, m2, val in v.items]
                    continue
            raise Unsupported('run written in a loop')
        if ws:
            groups = {}
            for o, n, v in ws:
                m = linear(o)
                ks = [(t, c) for i, (t, c) in m.items() if i is not None and self.mentions(t, k)]
                if len(ks) != 1 or not ks[0][0].eq(k) or not 0 < ks[0][1] < 2**32:
                    raise Unsupported('address not affine in the iteration')
                c = ks[0][1]
                o0 = norm(o - bv(c) * k)
                for key in groups:
                    d = diff(o0, groups[key][0])
                    if d is not None and groups[key][1] == c:
                        groups[key][2].append((d if d < 2**63 else d - 2**64, n, v))
                        break
                else:
                    groups[len(groups)] = (o0, c, [(0, n, v)])
            if len(groups) > 1 and len(set(g[1] for g in groups.values())) == 0:
                raise Unsupported('groups')
            for o0, c, items in groups.values():
                low = min(d for d, _, _ in items)
                items = [(d - low, n, v) for d, n, v in items]
                # later writes win
                flat = {}
                for d, n, v in items:
                    if isinstance(v, Ptr):
                        raise Unsupported('pointers written in a loop')
                    for b in range(n):
                        flat[d + b] = (v, n, b)
                if max(flat) >= c:
                    raise Unsupported('iterations overlap')
                words = []
                d = 0
                for d in sorted(flat):
                    v, n, b = flat[d]
                    if b == 0 and all(flat.get(d + x, (None,))[0] is v for x in range(n)):
                        words.append((d, n, self.at(v, k)))
                    elif not any(w <= d < w + m for w, m, _ in words):
                        words.append((d, 1, self.at(self.part(v, n, b), k)))
                out.append(Layer(norm(o0 + bv(low) if low >= 0 else o0 - bv(-low)), c, k, words))
        return out

    @staticmethod
    def at(v, k):
        return lambda j: z3.substitute(v, (k, j if z3.is_bv(j) else bv(j)))

    @staticmethod
    def at_run(v, k):
        byte, ln = v.byte, v.len

        def f(j):
            return Run(None, z3.substitute(ln, (k, j)), lambda b: z3.substitute(byte(b), (k, j)))
        return f
