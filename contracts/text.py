"""Contracts on text rendering (C18).

C++: the IR of the generated print functions runs against a stream that records what is inserted: every insertion appends
one record (kind and operands) to a ghost region, so a loop that prints elements is summarised like one that writes bytes.
The records of a message are then read back as literal text, decimals, escapes and nested messages, and compared with the
canonical text; adjacent literals are joined first, so how a text is cut into insertions does not matter.

Python: field_to_string and the escapes, on texts that stand for any text."""
import os
import re
import shutil
import subprocess
import tempfile

import z3

from contracts import cpp
from contracts.cpp import FLAGS, PASSES, REPO, ROOT, Case, cases, describe, guarded, leaf, prepare, reached, schemas, to_obs, wrappers
from engine import irx, llvm
from engine.irx import Layer, Machine, Ptr, Region, S, St, Unsupported, bv, norm
from spec import schema as SC
from spec import wire as W

REC = 32
STR, CHR, DEC, FLT, IND, BYT, ESC, NEST, LIT = range(1, 10)

WRAP = '''
#include <new>
#include <ostream>
#include "t.ppf.cpp"
using namespace prophy;
using namespace prophy::detail;
using namespace prophy::generated;
extern "C" {
void vf_indent(std::ostream* out, int n) { *out << indent_t(n); }
void vf_bytes(std::ostream* out, const uint8_t* p, size_t n) { *out << std::make_pair(p, n); }
void vf_byte(std::ostream* out, uint8_t x) { print_byte(*out, x); }
'''


def build(defs, types, enums=()):
    d = tempfile.mkdtemp(prefix='vftxt')
    try:
        with open(d + '/inner.prophy', 'w') as f:
            f.write(SC.prophy_text(defs))
        with open(d + '/t.prophy', 'w') as f:
            f.write('#include "inner.prophy"\n' + SC.prophy_text(list(enums) + list(types)))
        env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1')
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'prophyc', '--cpp_full_out', d, d + '/inner.prophy', d + '/t.prophy'],
                           env=env, cwd=d, capture_output=True, text=True, timeout=60)
        if r.returncode:
            raise Unsupported('prophyc: ' + (r.stdout + r.stderr)[-400:])
        extra = ['void %s__print(const %s* x, std::ostream* out, size_t n) { message_impl<%s>::print(*x, *out, n); }' % (t.name, t.name, t.name) for t in types]
        extra += ['const char* %s__literal(uint32_t x) { return print_traits<%s>::to_literal(%s(x)); }' % (t.name, t.name, t.name) for t in enums]
        with open(d + '/w.cpp', 'w') as f:
            f.write(WRAP + '\n'.join([wrappers(t) for t in types] + extra) + '\n}\n')
        r = subprocess.run(['clang++-18'] + FLAGS + ['-I' + ROOT + '/contracts/stub', '-I' + REPO + '/prophy_cpp/include', '-I' + d,
                                                     d + '/w.cpp', '-o', d + '/w.ll'], capture_output=True, text=True, timeout=120)
        if r.returncode:
            raise Unsupported('clang: ' + r.stderr[-600:])
        r = subprocess.run(['opt-18', '-S', '-passes=' + PASSES, d + '/w.ll', '-o', d + '/o.ll'], capture_output=True, text=True, timeout=120)
        if r.returncode:
            raise Unsupported('opt: ' + r.stderr[-600:])
        with open(d + '/o.ll') as f:
            text = f.read()
        mod = llvm.Module(text)
        mod.strings = {}
        for m in re.finditer(r'^@("[^"]+"|[\w.$]+) = [^\n]*? constant \[\d+ x i8\] (c"((?:[^"\\]|\\.)*)"|zeroinitializer)', text, re.M):
            raw = m.group(3) or '\\00'
            s = re.sub(r'\\([0-9A-Fa-f]{2}|\\)', lambda k: '\\' if k.group(1) == '\\' else chr(int(k.group(1), 16)), raw)
            mod.strings[m.group(1).strip('"')] = s
        return mod
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- the stream
INSERT = {
    '_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc': 'cstr', '_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c': 'char',
    '_ZNSolsEi': 's', '_ZNSolsEj': 'u', '_ZNSolsEl': 's', '_ZNSolsEm': 'u', '_ZNSolsEx': 's', '_ZNSolsEy': 'u', '_ZNSolsEs': 's', '_ZNSolsEt': 'u',
    '_ZNSolsEf': 'f', '_ZNSolsEd': 'f',
}
OWN = {'_ZN6prophy6detaillsERSoNS0_8indent_tE': IND, '_ZN6prophy6detaillsERSoSt4pairIPKhmE': BYT, '_ZN6prophy6detail10print_byteERSoh': ESC}
LITERAL = re.compile(r'_ZN6prophy6detail12print_traitsINS_9generated(\d+)(\w+)$')


class Stream(object):
    """Contract of std::ostream and of the functions that print parts of a message."""

    def __init__(self, c, M, mod, expand=()):
        self.c, self.M, self.mod, self.expand = c, M, mod, expand
        self.regions, self.texts = [], []
        self.S = Region('the stream', 8)
        self.OUT = Region('the text', None)
        self.OUT.log = True             # only appended to

    def open(self, st):
        for r in (self.S, self.OUT):
            st.mem[id(r)] = (r, ())
            st.assume(r.base & 7 == 0)
        self.M.put(st, self.S, irx.W(bv(0), 8, bv(0)))
        return Ptr(self.S, 0)

    def known(self, f):
        if f in INSERT or OWN.get(f, 0) and OWN[f] not in self.expand:
            return True
        m = LITERAL.match(f)
        if m and cpp.cut(m)[0] in self.c_inner():
            return True
        m = cpp.IMPL.match(f)
        return bool(m) and cpp.cut(m)[0] in self.c_inner() and 'E5printE' in cpp.cut(m)[1]

    def c_inner(self):
        return self.c.inner if self.c else {}

    def intern(self, table, x):
        for i, y in enumerate(table):
            if y is x or (isinstance(x, str) and y == x):
                return i
        table.append(x)
        return len(table) - 1

    def emit(self, st, out, *words):
        M = self.M
        if not isinstance(out, Ptr) or out.region is not self.S:
            raise Unsupported('insertion into another stream')
        pos = M.load(st, Ptr(self.S, 0), 8)
        for i in range(4):
            w = words[i] if i < len(words) else bv(0)
            M.put(st, self.OUT, irx.W(norm(pos + 8 * i), 8, w if not isinstance(w, int) else bv(w)))
        M.store(st, Ptr(self.S, 0), 8, norm(pos + REC))
        return [(st, out)]

    def place(self, p):
        if not isinstance(p, Ptr) or p.region is None:
            raise Unsupported('place of a value')
        return bv(self.intern(self.regions, p.region)), norm(p.off)

    def wide(self, v, signed):
        if z3.is_bool(v):
            return z3.If(v, bv(1), bv(0))
        w = v.size()
        return v if w == 64 else S(z3.SignExt(64 - w, v) if signed else z3.ZeroExt(64 - w, v))

    def callee(self, M, st, args, i):
        f = i.f
        if f in INSERT:
            k = INSERT[f]
            out, v = args[0], args[1]
            if k == 'cstr':
                if not isinstance(v, Ptr) or v.region is None:
                    raise Unsupported('insertion of an unknown text')
                lit = getattr(v.region, 'literal', None)
                if lit is not None:
                    return self.emit(st, out, LIT, self.intern(self.texts, 'enum ' + lit), norm(v.off))
                name = getattr(v.region, 'sym', None)
                o = S(v.off)
                if name not in self.mod.strings or not z3.is_bv_value(o):
                    raise Unsupported('insertion of an unknown text')
                s = self.mod.strings[name][o.as_long():].split('\0')[0]
                return self.emit(st, out, STR, self.intern(self.texts, s))
            if k == 'char':
                return self.emit(st, out, CHR, self.wide(v, False))
            if k == 'f':
                return self.emit(st, out, FLT, self.wide(v, False), v.size())
            w = self.wide(v, k == 's')
            return self.emit(st, out, DEC, w, S(w >> 63) if k == 's' else bv(0))
        if f in OWN:
            if OWN[f] == IND:
                return self.emit(st, args[0], IND, self.wide(args[1], False))
            if OWN[f] == BYT:
                return self.emit(st, args[0], BYT, *(self.place(args[1]) + (args[2],)))
            return self.emit(st, args[0], ESC, self.wide(args[1], False))
        m = LITERAL.match(f)
        if m:
            n = cpp.cut(m)[0]
            key = 'literal ' + n
            if key not in M.globals:
                M.globals[key] = Region(key, None, False)
                M.globals[key].literal = n
            return [(st, Ptr(M.globals[key], self.wide(args[0], False)))]
        n = cpp.cut(cpp.IMPL.match(f))[0]
        x, out, ind = args
        r, o = self.place(x)
        self.emit(st, out, S(bv(NEST) + 256 * self.intern(self.texts, 'nested ' + n)), r, o, ind)
        return [(st, None)]

    # reading the records back
    def records(self, st):
        """[record | ('loop', K, k, [record])]; a record is [kind, a, b, c]."""
        out = []
        cur = []
        for it in self.M.items(st, self.OUT):
            if isinstance(it, irx.W):
                cur.append((it.off, it.val))
                if len(cur) == 4:
                    d = [irx.diff(o, cur[0][0]) for o, _ in cur]
                    if d != [0, 8, 16, 24]:
                        raise Unsupported('records out of order')
                    out.append([v for _, v in cur])
                    cur = []
                continue
            if cur or not isinstance(it, Layer) or len(it.items) % 4 or it.total is not None:
                raise Unsupported('records of a loop')
            k = self.M.fresh('k')
            items = sorted(it.items, key=lambda x: x[0])
            if it.c != REC * (len(items) // 4) or [x[0] for x in items] != [8 * i for i in range(len(items))]:
                raise Unsupported('records of a loop')
            vals = [v(k) for _, _, v in items]
            out.append(('loop', it.K, k, [vals[4 * i:4 * i + 4] for i in range(len(items) // 4)]))
        if cur:
            raise Unsupported('half a record')
        return out

    def read(self, recs):
        """Joins literals: [('text', s) | (kind, operands...) | ('loop', K, k, [...])]."""
        out = []

        def text(s):
            if out and out[-1][0] == 'text':
                out[-1] = ('text', out[-1][1] + s)
            elif s:
                out.append(('text', s))
        for r in recs:
            if isinstance(r, tuple):
                out.append(('loop', r[1], r[2], self.read(r[3])))
                continue
            kind = S(r[0])
            if not z3.is_bv_value(kind):
                raise Unsupported('insertion that depends on the value')
            kind = kind.as_long()
            a = S(r[1])
            if kind == STR:
                if not z3.is_bv_value(a):
                    raise Unsupported('text that depends on the value')
                text(self.texts[a.as_long()])
            elif kind == CHR and z3.is_bv_value(a):
                text(chr(a.as_long()))
            elif kind % 256 == NEST:
                out.append(('nest', self.texts[kind // 256][7:]) + tuple(r[1:]))
            elif kind == LIT:
                out.append(('lit', self.texts[a.as_long()][5:], r[2]))
            else:
                out.append(({CHR: 'chr', DEC: 'dec', FLT: 'flt', IND: 'ind', BYT: 'byt', ESC: 'esc'}[kind],) + tuple(r[1:]))
        return out


# ---------------------------------------------------------------- the canonical text
class Spec(object):
    def __init__(self, c, s, indent):
        self.c, self.s, self.indent = c, s, indent

    def bits(self, p, n):
        M, st = self.c.M, self.c.st
        bs = [M.byte(st, p.region, norm(p.off + i)) for i in range(n)]
        return S(z3.Concat(*reversed(bs))) if n > 1 else bs[0]

    def value(self, name, t, p):
        """One value of type t at p under a name."""
        t = W.resolve(t)
        ind = ('ind', S(z3.ZeroExt(32, z3.Extract(31, 0, self.indent))), bv(0), bv(0))
        if isinstance(t, W.Enum):
            v = self.bits(p, 4)
            return [ind, ('text', name + ': '), ('lit', t.name, S(z3.ZeroExt(32, v))), ('text', '\n')]
        if isinstance(t, W.Scalar):
            v = self.bits(p, t.nbytes)
            if t.name.startswith('r'):
                return [ind, ('text', name + ': '), ('flt', self.s.wide(v, False), bv(8 * t.nbytes), bv(0)), ('text', '\n')]
            w = self.s.wide(v, t.name.startswith('i'))
            return [ind, ('text', name + ': '), ('dec', w, S(w >> 63) if t.name.startswith('i') else bv(0), bv(0)), ('text', '\n')]
        r, o = self.s.place(p)
        return [ind, ('text', name + ' {\n'), ('nest', t.name, r, o, norm(self.indent + 1)), ind, ('text', '}\n')]

    def message(self, arm):
        c = self.c
        if arm:
            return self.value(arm.name, arm.type, Ptr(c.X, c.at(arm.name)))
        out = []
        for m in c.t.members:
            if cpp.is_sizer(c.t, m):
                continue
            if m.form == W.PLAIN:
                out += self.value(m.name, m.type, Ptr(c.X, c.at(m.name)))
            elif m.form == W.OPTIONAL:
                has, p = c.opts[m.name]
                out += self.value(m.name, m.type, p) if has else []
            else:
                if m.form == W.FIXED_ARR:
                    p, n = Ptr(c.X, c.at(m.name)), bv(m.size)
                else:
                    p, n = c.data[m.name], c.count[m.name]
                if W.resolve(m.type) is W.BYTE:
                    r, o = self.s.place(p)
                    out += [('ind', S(z3.ZeroExt(32, z3.Extract(31, 0, self.indent))), bv(0), bv(0)), ('text', m.name + ': '), ('byt', r, o, n), ('text', '\n')]
                elif m.form == W.FIXED_ARR:
                    es = c.es(m.name)
                    for k in range(m.size):
                        out += self.value(m.name, m.type, Ptr(p.region, norm(p.off + es * k)))
                else:
                    k = c.M.fresh('k')
                    c.st.assume(z3.ULT(k, n))
                    out.append(('loop', n, k, self.value(m.name, m.type, Ptr(p.region, norm(p.off + bv(c.es(m.name)) * k)))))
        return out


def joined(items):
    out = []
    for x in items:
        if x[0] == 'loop':
            x = x[:3] + (joined(x[3]),)
        if x[0] == 'text' and out and out[-1][0] == 'text':
            out[-1] = ('text', out[-1][1] + x[1])
        else:
            out.append(x)
    return out


def compare(c, st, got, want, where='the text'):
    """Obligations that got renders like want; another structure leaves it undecided."""
    M = c.M
    got, want = joined(got), joined(want)
    if [x[0] for x in got] != [x[0] for x in want]:
        # a literal text where another is expected is decidable; anything else is not
        raise Unsupported('another structure: %s instead of %s' % ([x[:2] if x[0] == 'text' else x[0] for x in got], [x[:2] if x[0] == 'text' else x[0] for x in want]))
    for g, w in zip(got, want):
        if g[0] == 'text':
            M.prove(st, '%s: literal parts' % where, z3.BoolVal(g[1] == w[1]))
        elif g[0] == 'loop':
            M.prove(st, '%s: every element is printed' % where, g[1] == w[1])
            k = st.copy()
            k.assume(z3.ULT(w[2], w[1]))
            inner = [tuple(z3.substitute(y, (g[2], w[2])) if z3.is_expr(y) else y for y in x) for x in g[3]]
            compare(c, k, inner, w[3], where)
        elif g[0] in ('nest', 'lit'):
            M.prove(st, '%s: %s' % (where, 'nested messages' if g[0] == 'nest' else 'enumerators'),
                    z3.And(z3.BoolVal(g[1] == w[1]), *[a == b for a, b in zip(g[2:], w[2:])]))
        else:
            name = {'dec': 'numbers', 'flt': 'floating point numbers', 'ind': 'indentation', 'byt': 'byte strings', 'chr': 'characters', 'esc': 'escapes'}[g[0]]
            n = {'dec': 3, 'flt': 3, 'ind': 2, 'byt': 4, 'chr': 2, 'esc': 2}[g[0]]
            M.prove(st, '%s: %s' % (where, name), z3.And(*[a == b for a, b in zip(g[1:n], w[1:n])]))


def check_print(mod, t, defs):
    top = Case(mod, t, defs, 'print')
    for c, arm in cases(top):
        M = c.M
        s = Stream(c, M, mod)
        old, calls = c.known, dict(M.calls)
        M.calls.clear()
        M.calls[s.known] = s.callee
        M.calls.update(calls)
        c.X.writable = False
        ind = z3.BitVec('indent', 64)
        c.st.assume(z3.ULE(ind, 2**30))
        for m in c.t.members if isinstance(c.t, W.Struct) else ():
            if m.form == W.LIM_ARR:
                c.st.assume(z3.ULE(c.count[m.name], bv(m.size)))
        out = s.open(c.st)
        reached(c, c.st)
        for st, _ in M.call(c.fn('print'), [Ptr(c.X, 0), out, ind], c.st.copy()):
            reached(c, st)
            got = s.read(s.records(st))
            c.st = st
            compare(c, st, got, Spec(c, s, ind).message(arm), 'the text')
    return top.M


def alone(mod, name, fn, expand):
    M = Machine(mod, name, calls={}, limit=40)
    M.sum_facts = lambda f, k: []
    s = Stream(None, M, mod, expand)
    M.calls[s.known] = s.callee

    class C(object):
        pass
    c = C()
    c.M, c.st, c.inner = M, St(), {}
    s.c = c
    return c, M, s


def check_parts(mod):
    """Indentation, byte strings and escapes."""
    out = []

    def indentation():
        c, M, s = alone(mod, 'indentation', 'vf_indent', (IND,))
        o = s.open(c.st)
        n = z3.BitVec('n', 32)
        c.st.assume(z3.And(n >= 0, n <= 2**30))
        for st, _ in M.call('vf_indent', [o, n], c.st.copy()):
            reached(c, st)
            k = M.fresh('k')
            compare(c, st, s.read(s.records(st)), [('loop', S(z3.ZeroExt(32, n)), k, [('text', '  ')])], 'two blanks per level')
        return M
    out += to_obs(guarded('indentation', indentation), 'prophy::detail::operator<<(indent_t)')

    def strings():
        c, M, s = alone(mod, 'byte strings', 'vf_bytes', (BYT,))
        o = s.open(c.st)
        n = z3.BitVec('n', 64)
        M.most(c.st, n, 2**32)
        r = Region('bytes', n, False)
        c.st.mem[id(r)] = (r, ())
        for st, _ in M.call('vf_bytes', [o, Ptr(r, 0), n], c.st.copy()):
            reached(c, st)
            k = M.fresh('k')
            compare(c, st, s.read(s.records(st)), [('text', "'"), ('loop', n, k, [('esc', S(z3.ZeroExt(56, r.init(k))), bv(0), bv(0))]), ('text', "'")], 'quoted bytes')
        return M
    out += to_obs(guarded('byte strings', strings), 'prophy::detail::operator<<(bytes)')

    def escapes():
        c, M, s = alone(mod, 'escapes', 'vf_byte', (ESC,))
        for x in range(256):
            st = St()
            o = s.open(st)
            res = M.call('vf_byte', [o, bv(x, 8)], st)
            if len(res) != 1:
                raise Unsupported('several outcomes')
            compare(c, res[0][0], s.read(s.records(res[0][0])), [('text', W.escape(bytes([x])))], 'every byte')
        return M
    out += to_obs(guarded('escapes', escapes), 'prophy::detail::print_byte')
    return out


def check_literals(mod, enums):
    out = []
    for e in enums:
        def literals(e=e):
            c, M, s = alone(mod, 'to_literal of %s' % e.name, '', ())
            for n, v in e.members:
                res = M.call('%s__literal' % e.name, [bv(v & 0xffffffff, 32)], St())
                if len(res) != 1 or not isinstance(res[0][1], Ptr) or getattr(res[0][1].region, 'sym', None) not in mod.strings:
                    raise Unsupported('result of to_literal')
                p = res[0][1]
                M.prove(res[0][0], 'enumerators by name', z3.BoolVal(mod.strings[p.region.sym][S(p.off).as_long():].split('\0')[0] == n))
            return M
        out += to_obs(guarded('to_literal of %s' % e.name, literals), 'print_traits::to_literal')
    return out


ENUMS = [W.Enum('XE0', [('XE0_A', 0)]), W.Enum('XE1', [('XE1_A', 1), ('XE1_B', 2**32 - 1), ('XE1_C', 2**31), ('XE1_D', 7)])]


def group(name):
    defs, types = schemas(name)
    mod = build(defs, types)
    out = []
    for t in types:
        out += to_obs(guarded('print of %s' % describe(t), check_print, mod, t, defs), 'message_impl::print')
    return out


def parts():
    defs, types = schemas('scalars')
    mod = build(defs, types[:1], ENUMS)
    return check_parts(mod) + check_literals(mod, ENUMS)


# ---------------------------------------------------------------- Python
def python():
    """field_to_string on names, values and nested texts it cannot look into; the number of elements and lines is bounded."""
    import itertools
    import traceback
    from contracts.base import xform  # noqa: F401  (puts the repository on the path)
    from vf import core
    import prophy
    from prophy import composite, six
    obs = []
    fn = 'prophy.composite.field_to_string'

    class Value(object):
        def __init__(self, text):
            self.text = text

        def __str__(self):
            return self.text

    def guard(name, function, cases, backend):
        try:
            bad = [(got, want) for got, want in cases() if got != want]
            st, detail = ('refuted', '%r instead of %r' % bad[0]) if bad else ('proved', '')
        except Exception:
            st, detail = 'unsupported', traceback.format_exc()[-1200:]
        obs.append(core.Ob(name, function, st, 0.0, detail, backend=backend))
    N, V = '\ue001', '\ue002'
    f = composite.field_to_string

    class VfE(prophy.with_metaclass(prophy.enum_generator, prophy.enum)):
        _enumerators = [('VfE_A', 1), ('VfE_B', 2**32 - 1), ('VfE_C', 0)]

    class VfS(prophy.with_metaclass(prophy.struct_generator, prophy.struct)):
        _descriptor = [('a', prophy.u8)]
    ints = [getattr(prophy, n) for n in ('u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64')]
    guard('integers: name, colon, value', fn, lambda: [(f(N, t, Value(V)), '%s: %s\n' % (N, V)) for t in ints], 'execution on opaque values')
    guard('enumerators: name, colon, enumerator', fn, lambda: [(f(N, VfE, v), '%s: %s\n' % (N, n)) for n, v in VfE._enumerators], 'execution on opaque values')

    def escapes():
        for n in range(3):
            for b in itertools.product(range(256), repeat=n):
                yield six.repr_bytes(bytes(b)), "'%s'" % W.escape(bytes(b))
    guard('byte strings are quoted and escaped (bounded: all strings of up to 2 bytes)', 'prophy.six.repr_bytes', escapes, 'bounded')

    def nested():
        for k in range(4):
            for lines in itertools.product(('\ue003', '  \ue004', 'x {', '}'), repeat=k):
                body = ''.join(x + '\n' for x in lines)
                yield f(N, VfS, Value(body)), '%s {\n%s}\n' % (N, ''.join('  ' + x + '\n' for x in lines))
    guard('nested messages are indented blocks (bounded: up to 3 lines)', fn, nested, 'bounded')

    def arrays():
        for t in ints[:2] + [VfE]:
            arr = prophy.array(t, size=3)
            for k in range(4):
                vs = [Value(chr(0xe010 + i)) for i in range(k)] if t is not VfE else [1, 0, 2**32 - 1][:k]
                yield f(N, arr, vs), ''.join(f(N, t, v) for v in vs)
    guard('array elements are repeated under the name of the field (bounded: up to 3 elements)', fn, arrays, 'bounded')
    return obs
