"""Contracts on the generated raw C++ `prophy::swap`, decided on its LLVM IR (C09).

A message of any contents lies at any aligned place of a buffer; the claim is about every byte of the buffer afterwards."""
import os
import re
import shutil
import subprocess
import tempfile

import z3

from contracts import cpp
from contracts.cpp import CEIL, FLAGS, PASSES, REPO, ROOT, describe, fixed_type, guarded, leaf, parse, reached, to_obs, up
from engine import llvm
from engine.irx import Machine, Ptr, Region, Run, S, St, Unsupported, W64, B8, bv, norm
from spec import schema as SC
from spec import wire as W

STRUCTS = {
    'scalars': ['u8 u16 i32 u64 r32 r64 i8 i16 u32 i64 E', 'TU TD u8 L4 u8', 'u8 r64 u8'],
    'fixed arrays': ['u8 fix(u64) fix(u8)', 'fix(i16) fix(E) fix(r64)', 'u8 fix(A2) fix(L4) u16', 'fix(byte) u16'],
    'limited arrays': ['lim(u8) lim(u64)', 'u16 lim(E) u8 lim(A2)', 'lim(L4) lim(U8) u8', 'lim(byte) u32'],
    'optionals': ['opt(u8) opt(u64)', 'u8 opt(i16) opt(E)', 'opt(A8) opt(L4) u8', 'opt(U8) opt(A1)'],
    'dynamic arrays': ['dyn(u8) u64', 'dyn(u64) u8', 'dyn(u16) dyn(r32)', 'u8 dyn(E) u16', 'dyn(byte) u16'],
    'dynamic arrays of composites': ['dyn(A2) u64', 'dyn(A8) u8', 'dyn(U4) dyn(L4)', 'dyn(U8) u16'],
    'external counters': ['extu8(u16) u8', 'exti32(u64) u16', 'extu64(u8) u32', 'exti8(L4)', 'extu16(D4)', 'extu8(byte) u64'],
    'dynamic structs': ['D4 u8', 'u8 D8 u16', 'D4 D8', 'u64 D4 opt(u8)'],
    'arrays of dynamic structs': ['dyn(D4) u64', 'dyn(D8) u8', 'u8 extu8(D4) dyn(u64)'],
    'greedy tails': ['u8 greedy(u8)', 'dyn(u8) greedy(u64)', 'u16 greedy(E)', 'u64 greedy(A2)', 'greedy(D4)', 'u16 G1', 'dyn(u8) G8', 'opt(E) dyn(D8) lim(u8) greedy(u16)'],
    'several dynamic members': ['fix(u8) dyn(u8) u16 dyn(u64) u8', 'dyn(u8) dyn(u16) dyn(u32) u64', 'u8 dyn(u16) lim(A2) opt(u64) D8 u8'],
    'several arrays of one counter': [],
}
UNIONS = {
    'unions': [[('u8', 1), ('u16', 2), ('E', 3)], [('u64', 0), ('A2', 2**32 - 1)], [('A8', 5), ('L4', 2**31), ('r32', 7)], [('U8', 1), ('U4', 2)]],
}


def schemas(group):
    defs, types = cpp.inner()
    out = []
    base = re.sub(r'\W', '', group.title())
    for i, text in enumerate(STRUCTS.get(group, ())):
        out.append(W.Struct('%s%d' % (base, i), parse(text, types)))
    for i, arms in enumerate(UNIONS.get(group, ())):
        out.append(W.Union('%s%d' % (base, i), [W.Arm('a%d' % k, W.SCALARS.get(t) or types[t], d) for k, (t, d) in enumerate(arms)]))
    if group == 'several arrays of one counter':
        sc = W.SCALARS
        out.append(W.Struct(base, [W.Member('n', sc['u8']), W.Member('k', sc['u16']), W.Member('a', sc['u16'], W.EXT_ARR, bound='n'),
                                   W.Member('b', sc['u32'], W.EXT_ARR, bound='k'), W.Member('c', sc['u64'], W.EXT_ARR, bound='n')]))
        out.append(W.Struct(base + 'Limited', [W.Member('n', sc['u8']), W.Member('a', sc['u16'], W.EXT_ARR, bound='n'), W.Member('l', sc['u16'], W.LIM_ARR, 3),
                                               W.Member('c', sc['u64'], W.EXT_ARR, bound='n')]))
    return defs, out


def build(defs, types):
    d = tempfile.mkdtemp(prefix='vfraw')
    try:
        with open(d + '/inner.prophy', 'w') as f:
            f.write(SC.prophy_text(defs))
        with open(d + '/t.prophy', 'w') as f:
            f.write('#include "inner.prophy"\n' + SC.prophy_text(types))
        env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1')
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'prophyc', '--cpp_out', d, d + '/inner.prophy', d + '/t.prophy'],
                           env=env, cwd=d, capture_output=True, text=True, timeout=60)
        if r.returncode:
            raise Unsupported('prophyc: ' + (r.stdout + r.stderr)[-400:])
        with open(d + '/w.cpp', 'w') as f:
            f.write('#include "t.pp.cpp"\nextern "C" {\n' +
                    '\n'.join('void* %s__swap(void* p) { return prophy::swap(static_cast< ::%s*>(p)); }' % (t.name, t.name) for t in types) + '\n}\n')
        for cmd in (['clang++-18'] + FLAGS + ['-fno-strict-aliasing', '-I' + REPO + '/prophy_cpp/include', '-I' + d, d + '/w.cpp', '-o', d + '/w.ll'],
                    ['opt-18', '-S', '-passes=' + PASSES, d + '/w.ll', '-o', d + '/o.ll']):
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=120)
            if r.returncode:
                raise Unsupported('%s: %s' % (cmd[0], r.stderr[-600:]))
        with open(d + '/o.ll') as f:
            return llvm.Module(f.read())
    finally:
        shutil.rmtree(d, ignore_errors=True)


SWAP = re.compile(r'_ZN6prophy4swapI(\d+)(\w+)$')


class Raw(object):
    """The buffer, before and after."""

    def __init__(self, mod, t, defs):
        self.mod, self.t = mod, t
        self.inner = {d.name: d for d in defs if isinstance(W.resolve(d), (W.Struct, W.Union)) and not isinstance(d, W.Typedef)}
        self.M = Machine(mod, 'swap of %s' % describe(t), calls={self.known: self.callee}, limit=40)
        self.BUF = Region('the buffer', None)
        self.st = St()
        self.st.mem[id(self.BUF)] = (self.BUF, ())
        self.st.assume(self.BUF.base & 7 == 0)
        self.M.sum_facts = self.growing
        self.ends = {}

    def known(self, f):
        m = SWAP.match(f)
        return bool(m) and cpp.cut(m)[0] in self.inner

    # nested messages: contents before the call are the initial ones, afterwards those of the other byte order
    def taken(self, t, p):
        if fixed_type(t):
            return bv(W.size(t))
        return norm(bv(W.alignment(t)) * z3.Function('%s takes' % t.name, W64, W64)(p))

    def after(self, t, p, b):
        return z3.Function('swapped %s' % t.name, W64, W64, B8)(p, b)

    def lengths(self, st, t, p):
        if not fixed_type(t):
            q = z3.Function('%s takes' % t.name, W64, W64)(p)
            self.M.most(st, q, CEIL)
            st.assume(z3.UGE(q, 1))

    def callee(self, M, st, args, i):
        t = self.inner[cpp.cut(SWAP.match(i.f))[0]]
        p = args[0]
        if p.region is not self.BUF:
            raise Unsupported('swap outside the buffer')
        if W.stiffness(t) == W.UNLIMITED:
            raise Unsupported('swap of a greedy tail')
        off = norm(p.off)
        M.prove(st, 'nested messages start aligned', off & (W.alignment(t) - 1) == 0)
        self.lengths(st, t, off)
        n = self.taken(t, off)
        if not M.quiet:
            b = M.fresh('b')
            k = st.copy()
            k.assume(z3.ULT(b, n))
            M.prove(k, 'nested messages are swapped once', M.byte(k, self.BUF, norm(off + b)) == self.BUF.init(norm(off + b)))
        M.put(st, self.BUF, Run(off, n, lambda b: self.after(t, off, b)))
        return [(st, Ptr(p.region, norm(off + n)))]

    # -- specification
    def number(self, p, n):
        """The foreign (big-endian) number at p."""
        bs = [self.BUF.init(norm(p + i)) for i in range(n)]
        return S(z3.Concat(*bs)) if n > 1 else bs[0]

    def run(self):
        M, t = self.M, self.t
        q = z3.BitVec('start', 64)
        M.most(self.st, q, CEIL)
        p0 = norm(bv(W.alignment(t)) * q)
        segs, end = self.message(self.st, p0)
        reached(self, self.st)
        for s, v in M.call('%s__swap' % t.name, [Ptr(self.BUF, p0)], self.st.copy()):
            reached(self, s)
            if not isinstance(v, Ptr) or v.region is not self.BUF:
                raise Unsupported('result of swap')
            self.post(s, v.off, segs, end)
        return M

    def message(self, st, p0):
        """Assumes that a message starts at p0: its pieces and its end."""
        M, t, B = self.M, self.t, self.BUF
        segs = []           # (name, offset, length, [(facts, address, byte wanted)])
        counts = {}

        def value(name, ty, p, facts=()):
            n = leaf(ty)
            if n:
                segs.append((name, p, bv(n), [(list(facts), norm(p + i), B.init(norm(p + n - 1 - i))) for i in range(n)]))
                return bv(n)
            ty = W.resolve(ty)
            self.lengths(st, ty, p)
            b = M.fresh('b')
            ln = self.taken(ty, p)
            segs.append((name, p, ln, [(list(facts) + [z3.ULT(b, ln)], norm(p + b), self.after(ty, p, b))]))
            return ln

        def absent(name, ty, p, facts):
            """The place of a value that is not there: zero, and stays so."""
            n = leaf(ty)
            if n:
                zero = [B.init(norm(p + i)) == 0 for i in range(n)]
                segs.append((name, p, bv(n), [(list(facts) + zero, norm(p + i), bv(0, 8)) for i in range(n)]))

        def array(name, ty, p, n):
            nl = leaf(ty)
            ty = W.resolve(ty)
            j, b = M.fresh('j'), M.fresh('b')
            if nl or fixed_type(ty):
                s = nl or W.size(ty)
                q = norm(p + bv(s) * j)
                if nl:
                    pr = [([z3.ULT(j, n)], norm(q + i), B.init(norm(q + nl - 1 - i))) for i in range(nl)]
                else:
                    pr = [([z3.ULT(j, n), z3.ULT(b, s)], norm(q + b), self.after(ty, q, b))]
                segs.append((name, p, norm(bv(s) * n), pr))
                return norm(p + bv(s) * n)
            u = z3.BitVec('u#', 64)
            f = M.recfn(p, norm(u + self.taken(ty, u)))
            M.known.add(f.name())
            self.ends[f.name()] = (p, n)
            st.assume(z3.And(f(bv(0)) == p, z3.ULE(p, f(n))))
            M.most(st, f(n), 2**48)
            q = f(j)
            ln = self.taken(ty, q)
            facts = [z3.ULT(j, n), z3.ULT(b, ln)] + self.growing(f, j)
            segs.append((name, p, norm(f(n) - p), [(facts + [f(j + 1) == norm(q + ln)], norm(q + b), self.after(ty, q, b))]))
            return f(n)

        def visit(f, p):
            """End of the field at p."""
            if f.sizes:
                ct = W.resolve(f.type)
                n = self.number(p, ct.nbytes)
                n = S((z3.SignExt if ct.lo < 0 else z3.ZeroExt)(64 - n.size(), n)) if n.size() < 64 else n
                for a in f.sizes:
                    counts[a.name] = n
                    st.assume(z3.ULE(n, bv(a.size if a.form == W.LIM_ARR else 2**32 - 1)))
                value('counter ' + f.name, ct, p)
                return norm(p + ct.nbytes)
            if f.form == W.PLAIN:
                return norm(p + value(f.name, f.type, p))
            if f.form == W.OPTIONAL:
                flag = self.number(p, 4)
                st.assume(z3.Or(flag == 0, flag == 1))
                value('flag of ' + f.name, W.U32, p)
                at = norm(p + W.field_alignment(f))
                value(f.name, f.type, at, [flag == 1])
                absent(f.name, f.type, at, [flag == 0])
                return norm(p + W.field_size(f))
            if f.form == W.FIXED_ARR:
                return array(f.name, f.type, p, bv(f.size))
            if f.form == W.LIM_ARR:
                array(f.name, f.type, p, counts[f.name])
                return norm(p + W.field_size(f))
            return array(f.name, f.type, p, counts[f.name])
        self.ends = {}
        if isinstance(t, W.Union):
            value('discriminator', W.U32, p0)
            d = self.number(p0, 4)
            st.assume(z3.Or(*[d == bv(a.disc, 32) for a in t.arms]))
            for a in t.arms:
                value(a.name, a.type, norm(p0 + W.alignment(t)), [d == bv(a.disc, 32)])
            return segs, norm(p0 + W.size(t))
        p = p0
        fields = W.lower(t)
        for f, ba in zip(fields, W.block_alignments(fields)):
            p = up(self, st, p, max(W.field_alignment(f), ba or 1))
            if f is fields[-1] and W.stiffness(t) == W.UNLIMITED:
                return segs, p
            p = visit(f, p)
        return segs, up(self, st, p, W.alignment(t))

    def growing(self, f, k):
        """Elements follow each other up to the end of their array."""
        if f.name() not in self.ends:
            return []
        p, n = self.ends[f.name()]
        return [z3.Implies(z3.ULT(k, n), z3.And(z3.ULE(f(k + 1), f(n)), z3.ULE(f(k), f(k + 1)), z3.ULE(p, f(k)))), z3.ULE(f(n), bv(2**48)), f(bv(0)) == p]

    def post(self, st, got, segs, end):
        M, B = self.M, self.BUF
        self.seen = True
        M.prove(st, 'returns the end of the message', got == end)
        a = M.fresh('a')
        out = st.copy()
        for name, off, ln, probes in segs:
            for facts, addr, want in probes:
                k = st.copy()
                for x in facts:
                    k.assume(x)
                if not M.possible(k, z3.BoolVal(True)):
                    continue

                M.prove(k, '%s: bytes are those of the other byte order' % name, M.byte(k, B, addr) == want)
            out.assume(z3.Or(z3.ULT(a, off), z3.UGE(a, off + ln)))
        out.assume(z3.ULT(a, bv(2**50)))
        M.prove(out, 'nothing else changes', M.byte(out, B, a) == B.init(a))


def check_swap(mod, t, defs):
    c = Raw(mod, t, defs)
    M = c.run()
    if not getattr(c, 'seen', False):
        raise Unsupported('no message reaches the end')
    return M


def group(name):
    defs, types = schemas(name)
    mod = build(defs, types)
    out = []
    for t in types:
        out += to_obs(guarded('swap of %s' % describe(t), check_swap, mod, t, defs), 'prophy::swap')
    return out
