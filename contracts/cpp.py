"""Contracts on the generated C++ full codec and the headers it instantiates (C03, C05, C07, C19).

On every run prophyc compiles a set of schemas, clang lowers the generated source with the library headers to LLVM IR,
and the IR of encode, decode and get_byte_size is executed symbolically: any value, any bytes, any number of elements.
Nested types live in an included schema whose source is not part of the unit, so their functions are known by contract.

What is dropped: std::vector is replaced by contracts/stub/vector; exceptions are off; clang -O1 lowers the source."""
import os
import re
import shutil
import subprocess
import tempfile

import z3

from contracts.base import REPO, ROOT
from engine import llvm
from engine.irx import B8, Machine, Ptr, Region, Run, S, St, Unsupported, W64, bv, norm
from spec import schema as SC
from spec import wire as W
from vf import core

FLAGS = ['-std=c++11', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-exceptions', '-S', '-emit-llvm', '-w']
PASSES = 'sroa,simplifycfg,instsimplify,early-cse,simplifycfg'
ENDS = (('native', '<'), ('little', '<'), ('big', '>'))
CEIL = 2**40
INNER = 'Inner'


# ---------------------------------------------------------------- the set of schemas
def inner():
    """Nested types, by label."""
    sc = W.SCALARS
    E = W.Enum('NE', [('NE_A', 1), ('NE_B', 2**31), ('NE_C', 7)])
    A1 = W.Struct('NA1', [W.Member('x', sc['u8']), W.Member('y', sc['i8'])])
    A2 = W.Struct('NA2', [W.Member('x', sc['u16']), W.Member('y', sc['u8'])])
    A8 = W.Struct('NA8', [W.Member('x', sc['u64']), W.Member('y', sc['u16'])])
    D4 = W.Struct('ND4', [W.Member('x', sc['u8'], W.DYN_ARR)])
    D8 = W.Struct('ND8', [W.Member('x', sc['u16'], W.DYN_ARR), W.Member('y', sc['u64'])])
    U4 = W.Union('NU4', [W.Arm('a', sc['u8'], 1), W.Arm('b', sc['u16'], 2)])
    U8 = W.Union('NU8', [W.Arm('a', A2, 0), W.Arm('b', sc['i64'], 5)])
    G1 = W.Struct('NG1', [W.Member('x', sc['u8']), W.Member('g', sc['u8'], W.GREEDY_ARR)])
    G8 = W.Struct('NG8', [W.Member('x', sc['u8']), W.Member('g', sc['u64'], W.GREEDY_ARR)])
    L4 = W.Struct('NL4', [W.Member('x', sc['u8'], W.LIM_ARR, 3), W.Member('y', sc['u16'], W.OPTIONAL)])
    TD = W.Typedef('NTD', A2)
    TU = W.Typedef('NTU', sc['u16'])
    defs = [E, A1, A2, A8, D4, D8, U4, U8, G1, G8, L4, TD, TU]
    return defs, {d.name[1:]: d for d in defs}


def parse(text, types):
    """'u8 dyn(u16) opt(A8) ...' -> members."""
    out = []
    for i, w in enumerate(text.split()):
        m = re.match(r'(?:(\w+)\()?(\w+?)\)?(\d*)$', w) if '(' not in w else re.match(r'(\w+)\((\w+)\)()$', w)
        form, t = (m.group(1), m.group(2)) if '(' in w else (None, w)
        ty = W.BYTE if t == 'byte' else W.SCALARS.get(t) or types[t]
        n = 'm%d' % i
        if form is None:
            out.append(W.Member(n, ty))
        elif form == 'opt':
            out.append(W.Member(n, ty, W.OPTIONAL))
        elif form == 'fix':
            out.append(W.Member(n, ty, W.FIXED_ARR, 3))
        elif form == 'dyn':
            out.append(W.Member(n, ty, W.DYN_ARR))
        elif form == 'lim':
            out.append(W.Member(n, ty, W.LIM_ARR, 3))
        elif form == 'greedy':
            out.append(W.Member(n, ty, W.GREEDY_ARR))
        elif form.startswith('ext'):
            out.append(W.Member('s%d' % i, W.SCALARS[form[3:]]))
            out.append(W.Member(n, ty, W.EXT_ARR, bound='s%d' % i))
        else:
            raise ValueError(w)
    return out


STRUCTS = {
    'scalars': ['u8 u16 i32 u64 r32 r64 i8 i16 u32 i64 E', 'i64 u8', 'u8 r64 u8', 'TU TD u8 L4 u8'],
    'fixed arrays': ['u8 fix(u64) fix(u8)', 'fix(i16) fix(E) fix(r64)', 'u8 fix(A2) fix(L4) u16'],
    'limited arrays': ['lim(u8) lim(u64)', 'lim(i16) lim(E)'],
    'limited arrays of composites': ['u16 lim(E) u8 lim(A2)', 'lim(L4) lim(U8) u8'],
    'bytes': ['dyn(byte) fix(byte) u16', 'lim(byte) u32 greedy(byte)', 'extu8(byte) u64'],
    'optionals': ['opt(u8) opt(u64)', 'u8 opt(i16) opt(E)'],
    'optionals of composites': ['opt(A8) opt(L4) u8', 'opt(U8) opt(A1)'],
    'dynamic arrays': ['dyn(u8) u64', 'dyn(u64) u8', 'dyn(u16) dyn(r32)', 'u8 dyn(E) u16'],
    'dynamic arrays of composites': ['dyn(A2) u64', 'dyn(A8) u8', 'dyn(U4) dyn(L4)', 'dyn(U8) u16'],
    'external counters': ['extu8(u16) u8', 'exti32(u64) u16', 'extu64(u8) u32', 'exti8(L4)', 'extu16(ND)'],
    'dynamic structs': ['D4 u8', 'u8 D8 u16', 'D4 D8', 'u64 D4 opt(u8)'],
    'arrays of dynamic structs': ['dyn(D4) u64', 'dyn(D8) u8', 'u8 extu8(D4) dyn(u64)'],
    'greedy arrays': ['u8 greedy(u8)', 'dyn(u8) greedy(u64)', 'u16 greedy(E)', 'u64 greedy(A2)', 'u16 greedy(L4)', 'greedy(D4)', 'u8 greedy(D8)'],
    'unlimited structs': ['u16 G1', 'dyn(u8) G8'],
    'mixed': ['u8 dyn(u16) lim(A2) opt(u64) D8 u8'],
    'several dynamic members': ['fix(u8) dyn(u8) u16 dyn(u64) u8', 'dyn(u8) dyn(u16) dyn(u8) u32'],
    'mixed with a greedy tail': ['opt(E) dyn(D8) lim(u8) greedy(u16)'],
}
STRUCTS['external counters'][-1] = 'extu16(D4)'
UNIONS = {
    'unions': [[('u8', 1), ('u16', 2), ('E', 3)], [('u64', 0), ('A2', 2**32 - 1)], [('A8', 5), ('L4', 2**31), ('i8', 6), ('r32', 7)], [('U8', 1), ('U4', 2)]],
}


def schemas(group):
    defs, types = inner()
    out = []
    base = re.sub(r'\W', '', group.title())
    for i, text in enumerate(STRUCTS.get(group, ())):
        out.append(W.Struct('%s%d' % (base, i), parse(text, types)))
    for i, arms in enumerate(UNIONS.get(group, ())):
        out.append(W.Union('%s%d' % (base, i), [W.Arm('a%d' % k, W.SCALARS.get(t) or types[t], d) for k, (t, d) in enumerate(arms)]))
    return defs, out


# ---------------------------------------------------------------- from schema to IR
WRAP = '''
#include <new>
#include "t.ppf.cpp"
using namespace prophy;
using namespace prophy::detail;
using namespace prophy::generated;
extern "C" {
'''


def wrappers(t):
    n = t.name
    o = ['size_t %s__sizeof() { return sizeof(%s); }' % (n, n),
         'long %s__static() { return %s::encoded_byte_size; }' % (n, n),
         'size_t %s__size(const %s* x) { return x->get_byte_size(); }' % (n, n)]
    for e, _ in ENDS:
        o.append('uint8_t* %s__enc_%s(const %s* x, uint8_t* p) { return message_impl<%s>::encode<%s>(*x, p); }' % (n, e, n, n, e))
        o.append('bool %s__dec_%s(%s* x, const uint8_t** p, const uint8_t* e) { return message_impl<%s>::decode<%s>(*x, *p, e); }'
                 % (n, e, n, n, e))
        o.append('size_t %s__penc_%s(const %s* x, void* p) { return x->encode<%s>(p); }' % (n, e, n, e))
        o.append('void %s__venc_%s(const %s* x, std::vector<uint8_t>* o) { new (o) std::vector<uint8_t>(x->encode<%s>()); }' % (n, e, n, e))
        o.append('bool %s__mdec_%s(%s* x, const void* p, size_t n) { return x->decode<%s>(p, n); }' % (n, e, n, e))
        o.append('bool %s__xdec_%s(%s* x, const std::vector<uint8_t>* v) { return x->decode<%s>(*v); }' % (n, e, n, e))
    o.append('size_t %s__ppenc(const %s* x, void* p) { return x->encode(p); }' % (n, n))
    o.append('void %s__vvenc(const %s* x, std::vector<uint8_t>* o) { new (o) std::vector<uint8_t>(x->encode()); }' % (n, n))
    o.append('bool %s__mmdec(%s* x, const void* p, size_t n) { return x->decode(p, n); }' % (n, n))
    if isinstance(t, W.Union):
        o.append('const void* %s__at_disc(const %s* x) { return &x->discriminator; }' % (n, n))
        o.append('size_t %s__sizeof_disc() { return sizeof(((%s*)0)->discriminator); }' % (n, n))
    for m in t.arms if isinstance(t, W.Union) else t.members:
        if is_sizer(t, m):
            continue
        o.append('const void* %s__at_%s(const %s* x) { return &x->%s; }' % (n, m.name, n, m.name))
        form = getattr(m, 'form', W.PLAIN)
        if form == W.OPTIONAL:
            o.append('bool %s__has_%s(const %s* x) { return bool(x->%s); }' % (n, m.name, n, m.name))
            o.append('const void* %s__val_%s(const %s* x) { return &*x->%s; }' % (n, m.name, n, m.name))
            o.append('size_t %s__es_%s(const %s* x) { return sizeof(*x->%s); }' % (n, m.name, n, m.name))
        elif form == W.PLAIN:
            o.append('size_t %s__es_%s(const %s* x) { return sizeof(x->%s); }' % (n, m.name, n, m.name))
        else:
            o.append('size_t %s__es_%s(const %s* x) { return sizeof(x->%s.data()[0]); }' % (n, m.name, n, m.name))
    return '\n'.join(o)


def is_sizer(t, m):
    return isinstance(t, W.Struct) and any(x.form == W.EXT_ARR and x.bound == m.name for x in t.members)


def build(defs, types):
    d = tempfile.mkdtemp(prefix='vfcpp')
    try:
        with open(d + '/inner.prophy', 'w') as f:
            f.write(SC.prophy_text(defs))
        with open(d + '/t.prophy', 'w') as f:
            f.write('#include "inner.prophy"\n' + SC.prophy_text(types))
        env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1')
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'prophyc', '--cpp_full_out', d, d + '/inner.prophy', d + '/t.prophy'],
                           env=env, cwd=d, capture_output=True, text=True, timeout=60)
        if r.returncode:
            raise Unsupported('prophyc: ' + (r.stdout + r.stderr)[-400:])
        with open(d + '/w.cpp', 'w') as f:
            f.write(WRAP + '\n'.join(wrappers(t) for t in types) + '\n}\n')
        r = subprocess.run(['clang++-18'] + FLAGS + ['-I' + ROOT + '/contracts/stub', '-I' + REPO + '/prophy_cpp/include', '-I' + d,
                                                     d + '/w.cpp', '-o', d + '/w.ll'], capture_output=True, text=True, timeout=120)
        if r.returncode:
            raise Unsupported('clang: ' + r.stderr[-600:])
        r = subprocess.run(['opt-18', '-S', '-passes=' + PASSES, d + '/w.ll', '-o', d + '/o.ll'], capture_output=True, text=True, timeout=120)
        if r.returncode:
            raise Unsupported('opt: ' + r.stderr[-600:])
        with open(d + '/o.ll') as f:
            return llvm.Module(f.read())
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- contracts of callees
IMPL = re.compile(r'_ZN6prophy6detail12message_implINS_9generated(\d+)(\w+)$')
SIZE = re.compile(r'_ZNK6prophy9generated(\d+)(\w+)$')
LIFE = re.compile(r'_ZN6prophy9generated(\d+)(\w+)$')


def cut(m):
    n = int(m.group(1))
    return m.group(2)[:n], m.group(2)[n:]


class Ctx(object):
    """One function of one type under contract."""

    def __init__(self, mod, t, defs, what):
        self.mod, self.t, self.what = mod, t, what
        self.inner = {d.name: d for d in defs}
        self.M = Machine(mod, '%s of %s' % (what, describe(t)), calls={self.known: self.callee}, limit=40)
        self.M.sum_facts = self.sum_facts
        self.totals = {}
        self.size = self.num('sizeof')
        self.X = Region('x', self.size)
        self.st = St()
        self.own(self.X)
        self.fields = {}
        self.hook = None
        self.probe = 0

    def own(self, r, st=None):
        st = st or self.st
        st.mem[id(r)] = (r, st.mem.get(id(r), (r, ()))[1])
        st.assume(r.base & 7 == 0)
        return r

    def fn(self, name):
        return '%s__%s' % (self.t.name, name)

    def one(self, name, args=(), st=None):
        """A wrapper with a single outcome."""
        M = self.M
        M.quiet += 1
        res = M.call(self.fn(name), list(args), (st or St()).copy())
        M.quiet -= 1
        if len(res) != 1:
            raise Unsupported('several outcomes of ' + name)
        return res[0][1]

    def num(self, name):
        v = S(self.one(name))
        n = v.as_long()
        return n - 2**64 if n >= 2**63 else n

    def es(self, m):
        key = ('es', m)
        if key not in self.fields:
            v = S(self.one('es_' + m, [Ptr(self.X, 0)], self.st))
            self.fields[key] = v.as_long()
        return self.fields[key]

    def at(self, m):
        """Offset of a member in the object."""
        key = ('at', m)
        if key not in self.fields:
            p = self.one('at_' + m, [Ptr(self.X, 0)], self.st)
            self.fields[key] = S(p.off).as_long()
        return self.fields[key]

    # -- functions known by contract
    def known(self, f):
        if f.startswith('vf_'):
            return True
        for rx in (IMPL, SIZE, LIFE):
            m = rx.match(f)
            if m and cut(m)[0] in self.inner:
                return True
        return self.hook is not None and IMPL.match(f) is not None

    def callee(self, M, st, args, i):
        f = i.f
        if f.startswith('vf_'):
            return self.vector(st, f[3:], args)
        m = IMPL.match(f)
        if m:
            n, rest = cut(m)
            if n not in self.inner:
                return self.hook(st, rest, args)
            e = re.search(r'endiannessE(\d)', rest)
            e = ENDS[int(e.group(1))][0]
            t = self.inner[n]
            if 'E6encodeI' in rest:
                return self.nested_encode(st, t, e, args)
            if 'E6decodeI' in rest:
                return self.nested_decode(st, t, e, args)
            raise Unsupported('call of ' + f)
        m = SIZE.match(f)
        if m:
            n, rest = cut(m)
            if rest == '13get_byte_sizeEv':
                return [(st, self.length(args[0], self.inner[n]))]
            raise Unsupported('call of ' + f)
        n, rest = cut(LIFE.match(f))
        if re.match(r'[CD][12]E|aSE', rest):
            # construction, destruction and assignment leave any value
            M.fresh_n += 1
            g = z3.Function('any value %d' % M.fresh_n, W64, B8)
            p = args[0]
            size = self.sizeof_inner(n)
            M.inside(st, p, size, 'every store stays')
            if p.region.name.startswith('local ') and not M.items(st, p.region):
                return [(st, p)]            # its bytes are unknown already
            M.put(st, p.region, Run(norm(p.off), bv(size), lambda b: g(b)))
            return [(st, p)]
        raise Unsupported('call of ' + f)

    def sizeof_inner(self, n):
        for k in ('struct.prophy::generated::' + n,):
            key = '%"' + k + '"'
            if key in self.mod.raw:
                return self.mod.size(llvm.Ty('named', key))
        raise Unsupported('size of ' + n)

    def vector(self, st, f, args):
        M = self.M
        p = args[0]
        if f == 'drop':
            return [(st, None)]
        if f in ('make', 'resize'):
            n, es = S(args[1]), S(args[2])
            if self.what.startswith('decode'):
                M.prove(st, 'memory requested is bounded by the input', z3.ULE(n, self.N))
            M.fresh_n += 1
            r = Region('elements %d' % M.fresh_n, None if f == 'resize' and z3.is_bv_value(n) else norm(n * es))
            self.own(r, st)
            if f == 'make':
                M.put(st, r, Run(bv(0), r.size, lambda i: bv(0, 8)))
            M.store(st, p, 8, Ptr(r, 0))
            M.store(st, Ptr(p.region, p.off + 8), 8, n)
            return [(st, None)]
        if f == 'push':
            n = M.load(st, Ptr(p.region, p.off + 8), 8)
            M.store(st, Ptr(p.region, p.off + 8), 8, norm(n + 1))
            return [(st, None)]
        raise Unsupported('vector ' + f)

    # nested values: bytes and length are functions of the object, outcome of decoding of the position
    def quarters(self, p, t):
        a = W.alignment(t)
        g = z3.Function('length/%d of %s in %s' % (a, t.name, p.region.name), W64, W64)
        return a, g(p.off)

    def length(self, p, t):
        if W.stiffness(t) == W.FIXED:
            return bv(W.size(t))
        a, q = self.quarters(p, t)
        return norm(bv(a) * q)

    def facts_length(self, st, p, t):
        if W.stiffness(t) != W.FIXED:
            self.M.most(st, self.quarters(p, t)[1], CEIL)

    def enc_byte(self, p, t, e, b):
        return z3.Function('encoding %s of %s in %s' % (e, t.name, p.region.name), W64, W64, B8)(p.off, b)

    def nested_encode(self, st, t, e, args):
        M = self.M
        x, pos = args
        M.prove(st, 'nested messages start aligned', norm(pos.off) & (W.alignment(t) - 1) == 0)
        self.facts_length(st, x, t)
        n = self.length(x, t)
        M.inside(st, pos, n, 'every store stays')
        M.put(st, pos.region, Run(norm(pos.off), n, lambda b: self.enc_byte(x, t, e, b)))
        return [(st, Ptr(pos.region, norm(pos.off + n)))]

    def dec_ok(self, t, e, p):
        return z3.Function('%s decodes %s at' % (t.name, e), W64, z3.BoolSort())(p)

    def dec_len(self, t, e, p):
        if W.stiffness(t) == W.FIXED:
            return bv(W.size(t))
        a = W.alignment(t)
        return norm(bv(a) * z3.Function('%s takes %s at' % (t.name, e), W64, W64)(p))

    def dec_byte(self, t, e, p, b):
        return z3.Function('%s read %s at' % (t.name, e), W64, W64, B8)(p, b)

    def nested_decode(self, st, t, e, args):
        M = self.M
        x, pp, end = args
        pos = M.load(st, pp, 8)
        M.prove(st, 'nested messages start aligned', norm(pos.off) & (W.alignment(t) - 1) == 0)
        M.prove(st, 'nested messages are given what is left', z3.And(z3.ULE(pos.off, end.off), end.off == self.N))
        if pos.region is not self.IN or end.region is not self.IN:
            raise Unsupported('decoding outside the input')
        size = self.sizeof_inner(t.name)
        M.inside(st, x, size, 'every store stays')
        p = norm(pos.off)
        good, bad = st.copy(), st.copy()
        good.assume(self.dec_ok(t, e, p))
        n = self.dec_len(t, e, p)
        good.assume(z3.And(z3.ULE(n, self.N - p), z3.ULE(n, self.N)))
        if W.stiffness(t) != W.FIXED:
            q = z3.Function('%s takes %s at' % (t.name, e), W64, W64)(p)
            M.most(good, q, CEIL)
            good.assume(z3.UGE(q, 1))
        M.put(good, x.region, Run(norm(x.off), bv(size), lambda b: self.dec_byte(t, e, p, b)))
        M.store(good, pp, 8, Ptr(pos.region, norm(p + n)))
        bad.assume(z3.Not(self.dec_ok(t, e, p)))
        # after a failure the position is anywhere in what was left
        M.fresh_n += 1
        g = z3.Function('failed at %d' % M.fresh_n, W64, W64)(p)
        bad.assume(z3.And(z3.ULE(p, g), z3.ULE(g, self.N)))
        M.store(bad, pp, 8, Ptr(pos.region, g))
        M.fresh_n += 1
        h = z3.Function('any value %d' % M.fresh_n, W64, B8)
        M.put(bad, x.region, Run(norm(x.off), bv(size), lambda b: h(b)))
        bad.failed = True
        return [(good, z3.BoolVal(True)), (bad, z3.BoolVal(False))]

    # -- sums of lengths: monotone, bounded by the total
    def total(self, t, r, n, es):
        j = z3.BitVec('j#', 64)
        f = self.M.sumfn(self.length(Ptr(r, norm(bv(es) * j)), t))
        self.M.known.add(f.name())
        self.totals[f.name()] = (f, n)
        self.st.assume(f(bv(0)) == 0)
        self.M.most(self.st, f(n), CEIL)
        return f

    def sum_facts(self, f, k):
        if f.name() not in self.totals:
            return []
        _, n = self.totals[f.name()]
        return [z3.Implies(z3.ULT(k, n), z3.And(z3.ULE(f(k + 1), f(n)), z3.ULE(f(k), f(k + 1)))), z3.ULE(f(k), bv(CEIL))]


def describe(t):
    if isinstance(t, W.Union):
        return 'union {%s}' % ', '.join('%s: %r' % (a.disc_text, a.type) for a in t.arms)
    marks = {W.PLAIN: '', W.OPTIONAL: '*', W.FIXED_ARR: '[3]', W.DYN_ARR: '<>', W.LIM_ARR: '<3>', W.GREEDY_ARR: '<...>', W.EXT_ARR: '<@>'}
    return 'struct {%s}' % ' '.join('%r%s' % (m.type, marks[m.form]) for m in t.members)


# ---------------------------------------------------------------- the wire rules over terms
def up(c, st, p, a):
    """p rounded up to a multiple of a."""
    return c.M.mask(st, norm(p + (a - 1)), 2**64 - a) if a > 1 else p


def fixed_type(t):
    return W.stiffness(t) == W.FIXED


class Walk(object):
    """Positions of the fields of a message that starts at p0, given the counts and the lengths of nested values.

    src: count(field, width of its counter position), and length of nested values; the same walk serves both directions."""

    def __init__(self, c, st, p0):
        self.c, self.st, self.p = c, st, p0

    def run(self, visit):
        t = self.c.t
        fields = W.lower(t)
        for f, ba in zip(fields, W.block_alignments(fields)):
            self.p = up(self.c, self.st, self.p, max(W.field_alignment(f), ba or 1))
            visit(f, self)
        self.p = up(self.c, self.st, self.p, W.alignment(t))
        return self.p


def order(e, n):
    return list(range(n)) if dict(ENDS)[e] == '<' else list(reversed(range(n)))


def leaf(t):
    """Bytes of a scalar or enum, None for composites."""
    t = W.resolve(t)
    if isinstance(t, W.Scalar):
        return t.nbytes
    if isinstance(t, W.Enum):
        return 4
    return None


# ---------------------------------------------------------------- encoding
class Seg(object):
    """Bytes [off, off+len) of the encoding; probes: (assumptions, address, expected byte)."""

    def __init__(self, name, off, length, probes):
        self.name, self.off, self.len, self.probes = name, off, length, probes


class Enc(object):
    def __init__(self, c, e):
        self.c, self.e, self.segs = c, e, []
        self.st = c.st

    # object side
    def obj(self, p, b):
        """Byte b of the object at p."""
        for r, its in self.c.st.mem.values():
            if r is p.region:
                return self.c.M.byte(self.c.st, r, norm(p.off + b))

    def value(self, name, t, pos, p):
        """One value of type t held at p, encoded at pos."""
        n = leaf(t)
        if n:
            self.segs.append(Seg(name, pos, bv(n), [([], norm(pos + k), self.obj(p, i)) for k, i in enumerate(order(self.e, n))]))
            return bv(n)
        t = W.resolve(t)
        self.c.facts_length(self.st, p, t)
        ln = self.c.length(p, t)
        b = self.c.M.fresh('b')
        self.segs.append(Seg(name, pos, ln, [([z3.ULT(b, ln)], norm(pos + b), self.c.enc_byte(p, t, self.e, b))]))
        return ln

    def number(self, name, t, pos, v):
        """The low bytes of a 64-bit number."""
        n = t.nbytes
        self.segs.append(Seg(name, pos, bv(n), [([], norm(pos + k), S(z3.Extract(8 * i + 7, 8 * i, v))) for k, i in enumerate(order(self.e, n))]))
        return bv(n)

    def array(self, name, t, pos, p, n, es):
        n_leaf = leaf(t)
        t = W.resolve(t)
        c = self.c
        j = c.M.fresh('j')
        if n_leaf:
            pr = [([z3.ULT(j, n)], norm(pos + bv(n_leaf) * j + k), self.obj(Ptr(p.region, norm(p.off + bv(es) * j)), i))
                  for k, i in enumerate(order(self.e, n_leaf))]
            ln = norm(bv(n_leaf) * n)
        elif fixed_type(t):
            s = W.size(t)
            b = c.M.fresh('b')
            q = Ptr(p.region, norm(p.off + bv(es) * j))
            pr = [([z3.ULT(j, n), z3.ULT(b, s)], norm(pos + bv(s) * j + b), c.enc_byte(q, t, self.e, b))]
            ln = norm(bv(s) * n)
        else:
            f = c.total(t, p.region, n, es)
            q = Ptr(p.region, norm(bv(es) * j))
            b = c.M.fresh('b')
            ql = c.length(q, t)
            a, units = c.quarters(q, t)
            pr = [([z3.ULT(j, n), z3.ULT(b, ql), f(j + 1) == f(j) + units] + c.sum_facts(f, j), norm(pos + bv(a) * f(j) + b),
                   c.enc_byte(q, t, self.e, b))]
            ln = norm(bv(a) * f(n))
        self.segs.append(Seg(name, pos, ln, pr))
        return ln


def prepare(c):
    """Storage of the vectors of the value; the counts."""
    c.count, c.data = {}, {}
    c.cases = [[]]
    for m in c.t.members if isinstance(c.t, W.Struct) else ():
        if m.form in (W.DYN_ARR, W.LIM_ARR, W.GREEDY_ARR, W.EXT_ARR):
            off = c.at(m.name)
            n = z3.BitVec('n ' + m.name, 64)
            es = c.es(m.name)
            r = c.own(Region('elements of ' + m.name, norm(bv(es) * n), False))
            c.X.cells[off] = Ptr(r, 0)
            c.M.put(c.st, c.X, __import__('engine.irx', fromlist=['W']).W(bv(off + 8), 8, n))
            c.M.most(c.st, n, 2**32 - 1)
            c.count[m.name], c.data[m.name] = n, Ptr(r, 0)


def optional_view(c, m, st):
    """Whether an optional holds a value, and where, as the public interface tells."""
    M = c.M
    M.quiet += 1
    res = M.call(c.fn('has_' + m), [Ptr(c.X, 0)], st.copy())
    if len(res) == 1:
        s, v = res[0]
        has = v
        facts = s.pc[len(st.pc):]
    else:
        has = z3.Or(*[z3.And(v, *s.pc[len(st.pc):]) for s, v in res])
        facts = []
    s = st.copy()
    s.pc += facts
    s.assume(has)
    p = [q for _, q in M.call(c.fn('val_' + m), [Ptr(c.X, 0)], s)]
    M.quiet -= 1
    if len(p) != 1 or p[0].region is not c.X:
        raise Unsupported('place of an optional')
    return has, facts, p[0]


def spec_encode(c, e, p0):
    """Segments and end of the encoding of the value in c.X at p0."""
    enc = Enc(c, e)
    if isinstance(c.t, W.Union):
        raise AssertionError
    low = {f.name: f for f in W.lower(c.t)}
    conds = []

    def visit(f, w):
        pos = w.p
        if f.sizes:
            a = f.sizes[0]
            n = c.count[a.name]
            if a.form == W.LIM_ARR:
                n = z3.If(z3.ULT(n, a.size), n, bv(a.size))
            else:
                c.st.assume(z3.ULE(n, W.resolve(f.type).hi))
            w.p = norm(pos + enc.number('counter ' + f.name, W.resolve(f.type), pos, n))
            return
        if f.form == W.PLAIN:
            w.p = norm(pos + enc.value(f.name, f.type, pos, Ptr(c.X, c.at(f.name))))
        elif f.form == W.OPTIONAL:
            has, p = c.opts[f.name]
            if has:
                enc.number('flag of ' + f.name, W.U32, pos, bv(1))
                enc.value(f.name, f.type, norm(pos + W.field_alignment(f)), p)
            else:
                enc.number('flag of ' + f.name, W.U32, pos, bv(0))
            w.p = norm(pos + W.field_size(f))
        elif f.form == W.FIXED_ARR:
            ln = enc.array(f.name, f.type, pos, Ptr(c.X, c.at(f.name)), bv(f.size), c.es(f.name))
            w.p = norm(pos + ln)
        elif f.form == W.LIM_ARR:
            n = c.count[f.name]
            n = z3.If(z3.ULT(n, f.size), n, bv(f.size))
            enc.array(f.name, f.type, pos, c.data[f.name], n, c.es(f.name))
            w.p = norm(pos + W.field_size(f))
        else:
            w.p = norm(pos + enc.array(f.name, f.type, pos, c.data[f.name], c.count[f.name], c.es(f.name)))
    end = Walk(c, c.st, p0).run(visit)
    return enc.segs, end


def spec_encode_union(c, e, p0, arm):
    enc = Enc(c, e)
    enc.number('discriminator', W.U32, p0, bv(arm.disc))
    enc.value(arm.name, arm.type, norm(p0 + W.alignment(c.t)), Ptr(c.X, c.at(arm.name)))
    return enc.segs, norm(p0 + W.size(c.t))


def cases(c):
    """The kinds of values: every combination of set and absent optionals, every union arm."""
    if isinstance(c.t, W.Union):
        for arm in c.t.arms:
            k = c.fork()
            off = k.at('disc')
            d = S(z3.Concat(*[k.X.init(bv(off + i)) for i in (3, 2, 1, 0)]))
            k.st.assume(d == bv(arm.disc, 32))
            yield k, arm
        return
    opts = [m.name for m in c.t.members if m.form == W.OPTIONAL]
    for bits in range(2**len(opts)):
        k = c.fork()
        for i, m in enumerate(opts):
            has, facts, p = optional_view(k, m, k.st)
            for f in facts:
                k.st.assume(f)
            k.st.assume(has if bits >> i & 1 else z3.Not(has))
            k.opts[m] = (bool(bits >> i & 1), p)
        yield k, None


class Case(Ctx):
    def __init__(self, mod, t, defs, what):
        Ctx.__init__(self, mod, t, defs, what)
        self.opts = {}
        self.args = (mod, t, defs, what)

    def fork(self):
        k = Case(*self.args)
        k.M.obs, k.M.order = self.M.obs, self.M.order
        prepare(k)
        return k


def check_encode(mod, t, defs, e, values=True):
    top = Case(mod, t, defs, 'encode<%s>' % e)
    for c, arm in cases(top):
        M = c.M
        q = z3.BitVec('start', 64)
        c.M.most(c.st, q, 2**36)
        p0 = norm(bv(W.alignment(t)) * q)
        segs, end = spec_encode_union(c, e, p0, arm) if arm else spec_encode(c, e, p0)
        c.st.assume(z3.ULE(end, bv(2**48)))
        OUT = c.own(Region('the buffer', end))
        c.X.writable = False
        reached(c, c.st)
        for s, v in M.call(c.fn('enc_' + e), [Ptr(c.X, 0), Ptr(OUT, p0)], c.st.copy()):
            reached(c, s)
            if not isinstance(v, Ptr) or v.region is not OUT:
                raise Unsupported('result of encode')
            M.prove(s, 'returns one past the end of the message', v.off == end)
            if not values:
                continue
            a = M.fresh('a')
            out = s.copy()
            for g in segs:
                for facts, addr, want in g.probes:
                    k = s.copy()
                    for f in facts:
                        k.assume(f)
                    M.prove(k, '%s: bytes are those of the wire format' % g.name, M.byte(k, OUT, addr) == want)
                out.assume(z3.Or(z3.ULT(a, g.off), z3.UGE(a, g.off + g.len)))
            out.assume(z3.ULT(a, bv(2**50)))
            M.prove(out, 'nothing but the fields is written', M.byte(out, OUT, a) == OUT.init(a))
    return top.M


def reached(c, st):
    """Not vacuous: the assumptions of a path can hold together."""
    if c.M.ask(st.pc, [])[0] == z3.unsat:
        raise Unsupported('contradicting assumptions')
    c.paths = getattr(c, 'paths', 0) + 1


def check_size(mod, t, defs):
    top = Case(mod, t, defs, 'get_byte_size')
    for c, arm in cases(top):
        M = c.M
        p0 = bv(0)
        _, end = spec_encode_union(c, 'little', p0, arm) if arm else spec_encode(c, 'little', p0)
        for s, v in M.call(c.fn('size'), [Ptr(c.X, 0)], c.st.copy()):
            reached(c, s)
            M.prove(s, 'equals the length of the encoding', v == end)
    n = top.num('static')
    top.M.prove(top.st, 'encoded_byte_size is the size of fixed types', z3.BoolVal(n == (W.size(t) if fixed_type(t) else -1)))
    return top.M


# ---------------------------------------------------------------- decoding
class Dec(object):
    def __init__(self, c, st, e):
        self.c, self.st, self.e = c, st, e
        self.need, self.facts, self.probes = [], [], []

    def inp(self, p, n):
        """The number in n input bytes."""
        bs = [self.c.IN.init(norm(p + i)) for i in order(self.e, n)]
        return S(z3.Concat(*reversed(bs))) if n > 1 else bs[0]

    def fits(self, cond, name='fields fit in the input'):
        self.need.append((name, cond))


def check_decode(mod, t, defs, e, values=True):
    c = Case(mod, t, defs, 'decode<%s>' % e)
    M = c.M
    N = c.N = z3.BitVec('end', 64)
    q = z3.BitVec('start', 64)
    c.IN = c.own(Region('the input', N, False))
    P = c.own(Region('pos', 8))
    p0 = norm(bv(W.alignment(t)) * q)
    P.cells[0] = Ptr(c.IN, p0)
    prepare(c)
    M.most(c.st, N, CEIL)
    M.most(c.st, q, CEIL)
    c.st.assume(z3.ULE(p0, N))
    oks = 0
    for s, v in M.call(c.fn('dec_' + e), [Ptr(c.X, 0), Ptr(P, 0), Ptr(c.IN, N)], c.st.copy()):
        pos = M.load(s, Ptr(P, 0), 8)
        if pos.region is not c.IN:
            raise Unsupported('position after decode')
        for ok in (True, False):
            cond = S(v if ok else z3.Not(v))
            if not M.possible(s, cond):
                continue
            k = s.copy()
            k.assume(cond)
            if hasattr(s, 'failed'):
                k.failed = True
            spec_decode(c, k, e, p0, pos, ok, values)
            oks += ok
    M.prove(c.st, 'some input is accepted', z3.BoolVal(oks > 0))
    return M


def spec_decode(c, st, e, p0, pos, ok, values=True):
    """Post-state of a path that returned ok."""
    M, t, N, X = c.M, c.t, c.N, c.X
    need, checks = [], []
    base = st.copy()

    def room(p, n):
        need.append(z3.And(z3.ULE(p, N), z3.ULE(n, N - p)))

    def number(p, n):
        bs = [c.IN.init(norm(p + i)) for i in order(e, n)]
        return S(z3.Concat(*reversed(bs))) if n > 1 else bs[0]

    def value(name, ty, p, at, facts=()):
        """A value of fixed or dynamic type read at p into the object at `at`; its length."""
        n = leaf(ty)
        if n:
            for k, i in enumerate(order(e, n)):
                checks.append((name, list(facts), at, k, c.IN.init(norm(p + i))))
            return bv(n)
        ty = W.resolve(ty)
        b = M.fresh('b')
        need.append(z3.Implies(z3.And(*facts), c.dec_ok(ty, e, p)) if facts else c.dec_ok(ty, e, p))
        checks.append((name, list(facts) + [z3.ULT(b, c.sizeof_inner(ty.name))], at, b, c.dec_byte(ty, e, p, b)))
        return c.dec_len(ty, e, p)

    def array(name, ty, p, at, n, es, wire_fixed):
        """n values read at p; end position."""
        nl = leaf(ty)
        ty = W.resolve(ty)
        j = M.fresh('j')
        elem = Ptr(at.region, norm(at.off + bv(es) * j)) if at is not None else None
        if nl or fixed_type(ty):
            s = nl or W.size(ty)
            need.append(z3.And(z3.ULE(p, N), z3.ULE(n, N), z3.ULE(bv(s) * n, N - p)))
            if nl:
                for k, i in enumerate(order(e, nl)):
                    checks.append((name, [z3.ULT(j, n)], elem, k, c.IN.init(norm(p + bv(s) * j + i))))
            else:
                b = M.fresh('b')
                q = norm(p + bv(s) * j)
                checks.append((name, [z3.ULT(j, n), z3.ULT(b, c.sizeof_inner(ty.name))], elem, b, c.dec_byte(ty, e, q, b)))
            return norm(p + bv(s) * n)
        # positions follow each other
        u = z3.BitVec('u#', 64)
        step = M.canon(norm(u + c.dec_len(ty, e, u)))
        for f, v0, key in M.recs:
            if key == step and M.holds(st, v0 == p):
                M.known.add(f.name())
                break
        else:
            if not ok:
                return None
            raise Unsupported('decoding of %s' % name)
        b = M.fresh('b')
        st.assume(f(bv(0)) == p)
        base.assume(f(bv(0)) == p)
        need.append(z3.And(z3.ULE(p, N), z3.ULE(n, N - p), z3.ULE(f(n), N)))
        checks.append((name, [z3.ULT(j, n), z3.ULT(b, c.sizeof_inner(ty.name))], elem, b, c.dec_byte(ty, e, f(j), b)))
        return f(n)
    stored = {}

    def vec(m):
        off = c.at(m)
        d = M.load(st, Ptr(X, off), 8)
        n = M.load(st, Ptr(X, off + 8), 8)
        return d, n

    class Stop(Exception):
        pass
    w = Walk(c, st, p0)
    M.quiet += 1

    def visit(f, w):
        p = w.p
        if f.sizes:
            a = f.sizes[0]
            ct = W.resolve(f.type)
            room(p, bv(ct.nbytes))
            n = number(p, ct.nbytes)
            if n.size() < 64:
                n = (z3.SignExt if ct.lo < 0 else z3.ZeroExt)(64 - n.size(), n)
            n = S(n)
            stored[a.name] = n
            if a.form == W.LIM_ARR:
                need.append(z3.ULE(n, bv(a.size)))
            w.p = norm(p + ct.nbytes)
            return
        if f.form == W.PLAIN:
            ln = value(f.name, f.type, p, Ptr(X, c.at(f.name)))
            room(p, ln)
            w.p = norm(p + ln)
        elif f.form == W.OPTIONAL:
            room(p, bv(W.field_size(f)))
            d = number(p, 4)
            set_ = d != 0
            opt.append((f.name, set_))
            q = norm(p + W.field_alignment(f))
            if ok:
                if M.holds(st, set_):
                    has, facts, at = optional_view(c, f.name, st)
                    value(f.name, f.type, q, at, [set_])
            elif not leaf(f.type):
                need.append(z3.Implies(set_, c.dec_ok(W.resolve(f.type), e, q)))
            w.p = norm(p + W.field_size(f))
        elif f.form == W.FIXED_ARR:
            w.p = array(f.name, f.type, p, Ptr(X, c.at(f.name)), bv(f.size), c.es(f.name), True)
        elif f.form == W.LIM_ARR:
            room(p, bv(W.field_size(f)))
            n = stored[f.name]
            at = None
            if ok:
                at, k = vec(f.name)
                equal.append(('count of ' + f.name, k, n))
            array(f.name, f.type, p, at, n, c.es(f.name), True)
            w.p = norm(p + W.field_size(f))
        elif f.form == W.DYN_ARR:
            n = stored[f.name]
            at = None
            if ok:
                at, k = vec(f.name)
                equal.append(('count of ' + f.name, k, n))
            w.p = array(f.name, f.type, p, at, n, c.es(f.name), False)
        else:
            room(p, bv(0))
            ty = f.type
            if leaf(ty) or fixed_type(ty):
                s = leaf(ty) or W.size(ty)
                n = S(z3.UDiv(norm(N - p), bv(s)))
                at = None
                if ok:
                    at, k = vec(f.name)
                    equal.append(('count of ' + f.name, k, n))
                w.p = array(f.name, ty, p, at, n, c.es(f.name), False)
            else:
                if not ok:
                    raise Stop
                at, k = vec(f.name)
                w.p = array(f.name, ty, p, at, k, c.es(f.name), False)
        if w.p is None:
            raise Stop
    opt, equal = [], []
    complete = True
    try:
        if isinstance(t, W.Union):
            room(p0, bv(W.size(t)))
            d = number(p0, 4)
            need.append(z3.Or(*[d == bv(a.disc, 32) for a in t.arms]))
            for k, i in enumerate(order(e, 4)):
                checks.append(('discriminator', [], Ptr(X, c.at('disc')), k, c.IN.init(norm(p0 + i))))
            for a in t.arms:
                value(a.name, a.type, norm(p0 + W.alignment(t)), Ptr(X, c.at(a.name)), [d == bv(a.disc, 32)])
            end = norm(p0 + W.size(t))
        else:
            end = w.run(visit)
        room(end, bv(0))
    except Stop:
        complete = False
    M.quiet -= 1
    if not ok:
        if complete and not hasattr(st, 'failed') and not failed(st, c):
            # no nested message was refused: the input must be short of a rule
            M.prove(st, 'input that follows the rules is accepted', z3.Not(z3.And(*need)))
        return
    for x in need:
        M.prove(st, 'accepted input follows the rules', x)
        st.assume(x)
    M.prove(st, 'position is one past the message', pos.off == end)
    for name, a, b in equal:
        M.prove(st, name, a == b)
    for name, set_ in opt:
        has, facts, _ = optional_view(c, name, st) if M.holds(st, set_) else (None, [], None)
        if has is None:
            M.quiet += 1
            res = M.call(c.fn('has_' + name), [Ptr(X, 0)], st.copy())
            M.quiet -= 1
            for s2, h in res:
                M.prove(s2, 'presence of ' + name, z3.Not(h))
        else:
            k = st.copy()
            for f in facts:
                k.assume(f)
            M.prove(k, 'presence of ' + name, has)
    for name, facts, at, b, want in checks:
        if not values and isinstance(b, int):
            continue                # only what decides the length of the encoding
        k = st.copy()
        for f in facts:
            k.assume(f)
        if not M.possible(k, z3.BoolVal(True)):
            continue
        M.prove(k, '%s: value is the one in the input' % name,
                M.byte(k, at.region, norm(at.off + b)) == want)


def failed(st, c):
    """Whether a nested decode was refused on the path."""
    for f in st.pc:
        if z3.is_not(f) and f.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED and ' decodes ' in f.arg(0).decl().name():
            return True
    return False


# ---------------------------------------------------------------- public entry points
def check_public(mod, t, defs):
    """message<T>::encode and decode in terms of message_impl<T>."""
    out = []
    for e, _ in ENDS:
        for fn in ('penc_' + e,) + (('ppenc',) if e == 'native' else ()):
            c = Case(mod, t, defs, 'message::encode<%s>(pointer)' % e)
            M = c.M
            OUT = c.own(Region('the buffer', None))
            n = z3.BitVec('length', 64)

            def impl(st, rest, args, n=n, e=e, M=M, OUT=OUT, c=c):
                M.prove(st, 'calls encode in the byte order asked for', z3.BoolVal(asked(rest) == same(e) and 'E6encodeI' in rest))
                M.prove(st, 'encodes this object into the buffer', z3.And(z3.BoolVal(args[0].region is c.X and args[1].region is OUT),
                                                                         args[0].off == 0, args[1].off == 8))
                return [(st, Ptr(args[1].region, args[1].off + n))]
            c.hook = impl
            for s, v in M.call(c.fn(fn), [Ptr(c.X, 0), Ptr(OUT, 8)], c.st.copy()):
                M.prove(s, 'returns the number of bytes', v == n)
            out.append(M)
        for fn in ('venc_' + e,) + (('vvenc',) if e == 'native' else ()):
            c = Case(mod, t, defs, 'message::encode<%s>()' % e)
            prepare(c)
            M = c.M
            V = c.own(Region('the result', 16))
            size = S(z3.Function('get_byte_size', W64, W64)(bv(0)))
            M.most(c.st, size, CEIL)
            called = []

            def impl(st, rest, args, e=e, M=M, c=c, size=size, called=called):
                M.prove(st, 'calls encode in the byte order asked for', z3.BoolVal(asked(rest) == same(e) and 'E6encodeI' in rest))
                r = args[1].region
                M.prove(st, 'encodes this object', z3.And(z3.BoolVal(args[0].region is c.X), args[0].off == 0))
                i = M.fresh('i')
                M.prove(st, 'into a buffer of get_byte_size() zero bytes', z3.BoolVal(False) if r.size is None else
                        z3.And(args[1].off == 0, r.size == size, z3.Implies(z3.ULT(i, size), M.byte(st, r, i) == 0)))
                called.append(r)
                return [(st, Ptr(args[1].region, args[1].off + size))]
            c.hook = impl
            c.M.calls[lambda f: f == '_ZNK6prophy9generated%d%s13get_byte_sizeEv' % (len(t.name), t.name)] = \
                lambda M_, st, args, i, size=size: [(st, size)]
            for s, _ in M.call(c.fn(fn), [Ptr(c.X, 0), Ptr(V, 0)], c.st.copy()):
                if len(called) != 1:
                    raise Unsupported('calls of message_impl::encode')
                d = M.load(s, Ptr(V, 0), 8)
                k = M.load(s, Ptr(V, 8), 8)
                M.prove(s, 'returns that buffer', z3.And(z3.BoolVal(d.region is called[0]), d.off == 0, k == size))
            out.append(M)
        for fn in ('mdec_' + e, 'xdec_' + e) + (('mmdec',) if e == 'native' else ()):
            c = Case(mod, t, defs, 'message::decode<%s>' % e)
            M = c.M
            N = c.N = z3.BitVec('size', 64)
            IN = c.own(Region('the input', N, False))
            M.most(c.st, N, CEIL)
            ok, end = z3.Bool('ok'), z3.BitVec('read', 64)
            c.st.assume(z3.ULE(end, N))

            def impl(st, rest, args, e=e, M=M, c=c, IN=IN, N=N, ok=ok, end=end):
                M.prove(st, 'calls decode in the byte order asked for', z3.BoolVal(asked(rest) == same(e) and 'E6decodeI' in rest))
                p = M.load(st, args[1], 8)
                M.prove(st, 'decodes the whole input into this object',
                        z3.And(z3.BoolVal(args[0].region is c.X and p.region is IN and args[2].region is IN), args[0].off == 0, p.off == 0, args[2].off == N))
                M.store(st, args[1], 8, Ptr(IN, end))
                return [(st, ok)]
            c.hook = impl
            args = [Ptr(c.X, 0), Ptr(IN, 0), N]
            if fn.startswith('x'):
                V = c.own(Region('the vector', 16, False))
                V.cells[0] = Ptr(IN, 0)
                from engine.irx import W as Word
                M.put(c.st, V, Word(bv(8), 8, N))
                args = [Ptr(c.X, 0), Ptr(V, 0)]
            for s, v in M.call(c.fn(fn), args, c.st.copy()):
                M.prove(s, 'true exactly when everything was consumed', v == z3.And(ok, end == N))
            out.append(M)
    return out


def asked(rest):
    m = re.search(r'endiannessE(\d)', rest)
    return same(ENDS[int(m.group(1))][0]) if m else None


def same(e):
    """The host is little endian."""
    return 'little' if e == 'native' else e


# ---------------------------------------------------------------- groups
def to_obs(ms, prefix):
    out = []
    for M in ms:
        for n in M.order:
            o = M.obs[n]
            out.append(core.Ob(n, prefix, o.status, o.s, o.detail, o.model, backend='z3 (LLVM IR of the generated C++)'))
    seen, res = {}, []
    for o in out:
        if o.name in seen:
            x = seen[o.name]
            rank = ['proved', 'unknown', 'unsupported', 'refuted']
            if rank.index(o.status) > rank.index(x.status):
                x.status, x.detail, x.model = o.status, o.detail, o.model
            continue
        seen[o.name] = o
        res.append(o)
    return res


def guarded(name, f, *a):
    try:
        r = f(*a)
        return r if isinstance(r, list) else [r]
    except (Unsupported, llvm.Bad, KeyError, AttributeError, IndexError, z3.Z3Exception, AssertionError) as x:
        import traceback
        M = Machine(None, name)
        from engine.irx import Ob
        n = '%s: within the supported subset' % name
        o = M.obs[n] = Ob(n)
        M.order.append(n)
        o.status, o.detail = 'unsupported', '%s: %s %s' % (type(x).__name__, x, traceback.format_exc()[-600:])
        return [M]


def group(name, parts):
    """parts: enc (all of it) or enclen (length and bounds), dec or declen, size, public."""
    defs, types = schemas(name)
    mod = build(defs, types)
    out = []
    for t in types:
        d = describe(t)
        for e, _ in ENDS:
            if 'enc' in parts or 'enclen' in parts:
                out += to_obs(guarded('encode<%s> of %s' % (e, d), check_encode, mod, t, defs, e, 'enc' in parts), 'message_impl::encode<%s>' % e)
            if 'dec' in parts or 'declen' in parts:
                out += to_obs(guarded('decode<%s> of %s' % (e, d), check_decode, mod, t, defs, e, 'dec' in parts), 'message_impl::decode<%s>' % e)
        if 'size' in parts:
            out += to_obs(guarded('get_byte_size of %s' % d, check_size, mod, t, defs), 'get_byte_size')
    if 'public' in parts and types:
        out += to_obs(guarded('message of %s' % describe(types[0]), check_public, mod, types[0], defs), 'message')
    return out
