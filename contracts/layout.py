"""Contracts on the emitter of raw C++ structs (C08): prophyc/generators/cpp.py and model.partition.

The emitter runs on members whose nested types have symbolic sizes and whose extents are symbols; paddings and alignments
range over their whole (finite) domain.  Its text is read back as declarations; packed declarations follow each other, so
the offset of a declaration is the sum of the sizes before it.  The claim: that sum is the offset the wire format assigns,
given the paddings of the model (proved in C04).  A member is put between two arbitrary members: this is the step of the
induction over the members of a struct."""
import itertools
import re
import subprocess
import time
import traceback

import z3

from contracts.base import REPO, Unsupported
from vf import core

import prophyc.model as M  # noqa: E402
from prophyc.generators import cpp as G

SIZES = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'r32': 4, 'r64': 8, 'byte': 1}
CTYPES = {'uint8_t': 1, 'uint16_t': 2, 'uint32_t': 4, 'uint64_t': 8, 'int8_t': 1, 'int16_t': 2, 'int32_t': 4, 'int64_t': 8,
          'float': 4, 'double': 8, 'prophy::bool_t': 4}
TOKEN = re.compile(r'[A-Za-z_][\w:]*|\d+|[][(){};=,-]|\S')


# ------------------------------------------------------------------ reading declarations

class Decl(object):
    def __init__(self, ctype, name, count=None, inner=None, align=None):
        self.ctype, self.name, self.count, self.inner, self.align = ctype, name, count, inner, align


class Reader(object):
    def __init__(self, text):
        text = re.sub(r'//[^\n]*|/\*.*?\*/', ' ', text, flags=re.S)
        self.t, self.i = TOKEN.findall(text), 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ''

    def take(self, what=None):
        x = self.peek()
        if not x or (what is not None and x != what):
            raise Unsupported('declaration text: expected %s, got %r' % (what, x))
        self.i += 1
        return x

    def decl(self):
        x = self.take()
        if x == 'PROPHY_STRUCT':
            self.take('(')
            align = self.take()
            self.take(')')
            name = self.take()
            inner = self.block()
            var = None if self.peek() == ';' else self.take()
            self.take(';')
            return Decl('struct', var or name, inner=inner, align=align)
        if x == 'union':
            inner = self.block()
            self.take(';')
            return Decl('union', None, inner=inner)
        if x == 'enum':
            name = self.take()
            self.take('{')
            arms = {}
            while self.peek() != '}':
                n = self.take()
                self.take('=')
                v = self.take()
                arms[n] = v if v != '-' else v + self.take()
                if self.peek() == ',':
                    self.take()
            self.take('}')
            var = self.take()
            self.take(';')
            return Decl('enum', var, inner=arms)
        name, count = self.take(), None
        if self.peek() == '[':
            self.take()
            count = self.take()
            self.take(']')
        self.take(';')
        return Decl(x, name, count)

    def block(self):
        self.take('{')
        res = []
        while self.peek() != '}':
            res.append(self.decl())
        self.take('}')
        return res


def read(text):
    r = Reader(text)
    d = r.decl()
    if r.peek():
        raise Unsupported('text after the declaration: %r' % r.peek())
    return d


# ------------------------------------------------------------------ types of members

class Type(object):
    """A wire type: prophy name, definition node, size (term), alignment, kind."""

    def __init__(self, label, name, node, size, align, kind):
        self.label, self.name, self.node, self.size, self.align, self.kind = label, name, node, size, align, kind


def node(cls, name, align, kind=M.Kind.FIXED):
    n = cls(name, [])
    n.alignment, n.kind = align, kind
    return n


def types():
    res = [Type(n, n, None, z3.IntVal(s), s, M.Kind.FIXED) for n, s in sorted(SIZES.items())]
    enum = M.Enum('TE', [M.EnumMember('TE_A', '1')])
    res.append(Type('an enum', 'TE', enum, z3.IntVal(4), 4, M.Kind.FIXED))
    for a in (1, 2, 4, 8):
        res.append(Type('a struct of alignment %d' % a, 'TS%d' % a, node(M.Struct, 'TS%d' % a, a), z3.Int('sizeof TS%d' % a), a, M.Kind.FIXED))
        res.append(Type('a dynamic struct of alignment %d' % a, 'TD%d' % a, node(M.Struct, 'TD%d' % a, a, M.Kind.DYNAMIC),
                        z3.Int('sizeof TD%d' % a), a, M.Kind.DYNAMIC))
    for a in (4, 8):
        res.append(Type('a union of alignment %d' % a, 'TU%d' % a, node(M.Union, 'TU%d' % a, a), z3.Int('sizeof TU%d' % a), a, M.Kind.FIXED))
    for t in list(res):
        d, name = t.node, t.name
        if t.kind == M.Kind.DYNAMIC:
            continue
        for k in range(2):
            td = M.Typedef('Y%d%s' % (k, t.name), name, d)
            d, name = td, td.name
            res.append(Type('typedef %d of %s' % (k + 1, t.label), td.name, td, t.size, t.align, t.kind))
    return res


def ctype_size(env, c):
    if c in CTYPES:
        return z3.IntVal(CTYPES[c])
    if c in env:
        return env[c]
    raise Unsupported('C++ type %r' % c)


def extent(env, n):
    if n is None:
        return z3.IntVal(1)
    if n.isdigit():
        return z3.IntVal(int(n))
    if n in env:
        return env[n]
    raise Unsupported('array extent %r' % n)


def places(env, decls):
    """{name: (offset, Decl)}, end: declarations of a packed struct follow each other."""
    off, res = z3.IntVal(0), {}
    for d in decls:
        if d.ctype == 'struct':
            break
        if d.name in res:
            raise Unsupported('declared twice: %s' % d.name)
        res[d.name] = (off, d)
        off = z3.simplify(off + ctype_size(env, d.ctype) * extent(env, d.count))
    return res, off


# ------------------------------------------------------------------ obligations

class Book(object):
    def __init__(self, function):
        self.function, self.obs = function, []

    def claim(self, name, goals):
        """goals: [(facts, formula, text)]"""
        t0 = time.time()
        for facts, f, text in goals:
            if z3.is_true(z3.simplify(f, som=True)):
                continue
            s = z3.Solver()
            s.set('timeout', 20000)
            s.add(*facts)
            s.add(z3.Not(f) if z3.is_expr(f) else z3.BoolVal(not f))
            r = s.check()
            if r != z3.unsat:
                self.obs.append(core.Ob(name, self.function, 'refuted' if r == z3.sat else 'unknown', time.time() - t0, text, str(s.model()) if r == z3.sat else None))
                return
        self.obs.append(core.Ob(name, self.function, 'proved' if goals else 'unsupported', time.time() - t0))

    def guard(self, name, fn):
        try:
            self.claim(name, fn())
        except Exception:
            self.obs.append(core.Ob(name, self.function, 'unsupported', 0.0, traceback.format_exc()[-1200:]))


def member(name, t, form, padding, env):
    kw = {}
    if form == 'optional':
        kw['optional'] = True
    elif form == 'fixed array':
        kw['size'] = 'N_' + name
    elif form == 'limited array':
        kw.update(size='N_' + name, bound='num_' + name)
    elif form == 'dynamic array':
        kw['bound'] = 'num_' + name
    elif form == 'greedy array':
        kw['greedy'] = True
    m = M.StructMember(name, t.name, t.node, **kw)
    m.padding, m.alignment = padding, 4 if form == 'optional' and t.align < 4 else t.align
    m.kind = t.kind
    m.numeric_size = None
    env[t.name] = t.size
    env['N_' + name] = z3.Int('N_' + name)
    if form in ('fixed array', 'limited array'):
        m.numeric_size = 3
    return m


def contribution(t, form, padding, name):
    """Spec: offset of the value inside the member, bytes of the member with its padding."""
    lead = max(4, t.align) if form == 'optional' else 0
    n = z3.Int('N_' + name) if form in ('fixed array', 'limited array') else z3.IntVal(1)
    return lead, lead + t.size * n + padding


def struct_text(members, align):
    s = M.Struct('TT', members)
    s.alignment, s.kind = align, max([M.Kind.FIXED] + [m.kind for m in members])
    s.byte_size = 0
    return G._HppDefinitionsTranslator().translate_struct(s)


def opaque(k):
    return Type('P%d' % k, 'TP%d' % k, node(M.Struct, 'TP%d' % k, 1), z3.Int('sizeof TP%d' % k), 1, M.Kind.FIXED)


FIXED = ('plain', 'optional', 'fixed array', 'limited array')
OPEN = ('dynamic array', 'greedy array')


def step(t, form, padding, prev):
    """before (any size, padding prev), the member, after (any size): where everything lies."""
    env = {}
    facts = []
    p, q = opaque(1), opaque(2)
    before = member('before', p, 'plain', prev, env)
    m = member('value', t, form, padding, env)
    last = form == 'greedy array'
    after = [] if last else [member('after', q, 'plain', 0, env)]
    facts += [x >= 0 for x in env.values() if z3.is_expr(x)]
    d = read(struct_text([before, m] + after, 8))
    where, end = places(env, d.inner)
    parts = [x for x in d.inner if x.ctype == 'struct']
    txt = '%s %s, padding %s after padding %s' % (t.label, form, padding, prev)
    o0 = p.size + prev
    goals = []

    def at(table, name, off, what, count=None):
        if name not in table:
            raise Unsupported('no declaration of %s' % name)
        goals.append((facts, table[name][0] == off, '%s: %s' % (txt, what)))
    at(where, 'before', z3.IntVal(0), 'first member')
    lead = max(4, t.align) if form == 'optional' else 0
    if form == 'optional':
        at(where, 'has_value', o0, 'flag')
        goals.append((facts, ctype_size(env, where['has_value'][1].ctype) == 4, txt + ': size of the flag'))
    at(where, 'value', o0 + lead, 'value')
    v = where['value'][1]
    goals.append((facts, ctype_size(env, v.ctype) == t.size, txt + ': type of the value'))
    if form in ('fixed array', 'limited array'):
        goals.append((facts, extent(env, v.count) == z3.Int('N_value'), txt + ': extent'))
    elif form in OPEN:
        goals.append((facts, z3.BoolVal(v.count is not None), txt + ': is an array'))
    else:
        goals.append((facts, z3.BoolVal(v.count is None), txt + ': is no array'))
    if not last:
        if form in FIXED and t.kind == M.Kind.FIXED:
            goals.append((facts, z3.BoolVal(not parts), txt + ': no part'))
            at(where, 'after', o0 + contribution(t, form, padding, 'value')[1], 'next member')
            goals.append((facts, end == o0 + contribution(t, form, padding, 'value')[1] + q.size, txt + ': size'))
        else:
            if len(parts) != 1:
                goals.append((facts, z3.BoolVal(False), txt + ': one part follows'))
            else:
                inner, _ = places(env, parts[0].inner)
                at(inner, 'after', z3.IntVal(0), 'first member of the next part')
                goals.append((facts, z3.BoolVal(parts[0].align == str(after[0].alignment)), txt + ': alignment of the part'))
    return goals


def members():
    b = Book('prophyc.generators.cpp._HppDefinitionsTranslator.translate_struct')
    for t in types():
        for form in FIXED + OPEN:
            if t.kind == M.Kind.DYNAMIC and form not in ('plain', 'dynamic array', 'greedy array'):
                continue
            if t.name == 'byte' and form in ('plain', 'optional'):
                continue
            if form in OPEN or t.kind == M.Kind.DYNAMIC:
                pads = (-1, -2, -4, -8, 0)
            else:
                pads = range(8)

            def goals(t=t, form=form, pads=pads):
                r = []
                for p in pads:
                    for prev in (0, 7):
                        r += step(t, form, p, prev)
                return r
            b.guard('%s of %s: flag, value, first element and what follows lie at their wire offsets' % (form, t.label), goals)
    return b.obs


def paddings():
    """generate_padding declares exactly the bytes asked for, under fresh names."""
    b = Book('prophyc.generators.cpp._Padder.generate_padding')

    def goals():
        r = []
        for p, q in itertools.product(range(1, 8), repeat=2):
            pd = G._Padder()
            x, y = pd.generate_padding(p), pd.generate_padding(q)
            d = read('PROPHY_STRUCT(1) X {%s%s};' % (x, y)).inner
            ok = sum(CTYPES[i.ctype] for i in d) == p + q and len(set(i.name for i in d)) == len(d)
            first = read('PROPHY_STRUCT(1) X {%s};' % x).inner
            ok = ok and sum(CTYPES[i.ctype] for i in first) == p
            r.append(([], z3.BoolVal(ok), 'paddings %d, %d: %s%s' % (p, q, x, y)))
        return r
    b.guard('declares exactly the bytes asked for, under names not used before', goals)
    return b.obs


def unions():
    b = Book('prophyc.generators.cpp._HppDefinitionsTranslator.translate_union')
    ts = [t for t in types() if t.kind == M.Kind.FIXED and t.name != 'byte']
    for align in (4, 8):
        for t in ts:
            if t.align > align:
                continue

            def goals(t=t, align=align):
                r = []
                for n in (1, 2, 3):
                    for at in range(n):
                        env, arms = {t.name: t.size}, []
                        for k in range(n):
                            q = t if k == at else opaque(k)
                            env[q.name] = q.size
                            u = M.UnionMember('arm%d' % k, q.name, str(k * 7 + 1), q.node)
                            u.alignment, u.kind = q.align, M.Kind.FIXED
                            arms.append(u)
                        u = M.Union('TT', arms)
                        u.alignment, u.kind, u.byte_size = align, M.Kind.FIXED, 0
                        d = read(G._HppDefinitionsTranslator().translate_union(u))
                        off, seen, disc = z3.IntVal(0), None, None
                        for x in d.inner:
                            if x.ctype == 'enum':
                                disc = (off, x)
                                off = off + 4
                            elif x.ctype == 'union':
                                seen = (off, x)
                            else:
                                off = off + ctype_size(env, x.ctype) * extent(env, x.count)
                        txt = 'union of alignment %d, arm %d of %d is %s' % (align, at + 1, n, t.label)
                        if seen is None or disc is None:
                            raise Unsupported('no union or discriminator in the text')
                        r.append(([], disc[0] == 0, txt + ': discriminator first'))
                        r.append(([], seen[0] == align, txt + ': arms after discriminator and padding'))
                        r.append(([], z3.BoolVal([x.name for x in seen[1].inner] == ['arm%d' % k for k in range(n)]), txt + ': all arms'))
                        r.append(([], z3.BoolVal(d.align == str(align)), txt + ': alignment'))
                        for k, x in enumerate(seen[1].inner):
                            r.append(([], ctype_size(env, x.ctype) == env[arms[k].type_name], txt + ': type of an arm'))
                            r.append(([], z3.BoolVal(disc[1].inner.get('discriminator_arm%d' % k) == str(k * 7 + 1)), txt + ': discriminator value'))
                return r
            b.guard('union of alignment %d with an arm of %s: discriminator and arms lie at their wire offsets' % (align, t.label), goals)
    return b.obs


def sequences():
    """Longer structs are laid out member by member; parts end with dynamic members (bounded: up to 5 members)."""
    b = Book('prophyc.model.partition')
    kinds = ('fixed', 'dynamic array', 'dynamic struct')

    def split():
        r = []
        for n in range(1, 7):
            for ks in itertools.product(kinds, repeat=n):
                ms = []
                for i, k in enumerate(ks):
                    t = opaque(i)
                    m = member('m%d' % i, t, 'dynamic array' if k == 'dynamic array' else 'plain', 0, {})
                    m.kind = M.Kind.DYNAMIC if k == 'dynamic struct' else M.Kind.FIXED
                    ms.append(m)
                main, parts = M.partition(ms)
                groups = [main] + list(parts)
                want, cur = [], []
                for m, k in zip(ms, ks):
                    cur.append(m)
                    if k != 'fixed' and m is not ms[-1]:
                        want.append(cur)
                        cur = []
                want.append(cur)
                ok = len(groups) == len(want) and all(len(g) == len(w) and all(x is y for x, y in zip(g, w)) for g, w in zip(groups, want))
                r.append(([], z3.BoolVal(ok), 'members %s' % (ks,)))
        return r
    b.guard('a part ends with each dynamic member, the members keep their order (bounded: up to 6 members)', split)
    b.function = 'prophyc.generators.cpp._HppDefinitionsTranslator.translate_struct'
    ts = [t for t in types() if t.label in ('u8', 'u64', 'a struct of alignment 8', 'a dynamic struct of alignment 4')]
    shapes = [(t, f, p) for t in ts for f, p in (('plain', 0), ('plain', 3), ('optional', 7), ('fixed array', 5), ('dynamic array', -8), ('limited array', 2))
              if t.kind == M.Kind.FIXED or (f, p) in (('plain', 0), ('dynamic array', -8))]

    def compose():
        r = []
        for seq in itertools.product(shapes, repeat=3):
            env = {}
            ms = [member('m%d' % i, t, f, p, env) for i, (t, f, p) in enumerate(seq)]
            facts = [x >= 0 for x in env.values()]
            d = read(struct_text(ms, 8))
            blocks = [d] + [x for x in d.inner if x.ctype == 'struct']
            k, off, table = 0, z3.IntVal(0), places(env, d.inner)[0]
            for i, (t, f, p) in enumerate(seq):
                lead, size = contribution(t, f, p, 'm%d' % i)
                if 'm%d' % i not in table:
                    r.append((facts, z3.BoolVal(False), '%s: m%d is not in block %d' % ([(x[0].label, x[1], x[2]) for x in seq], i, k)))
                    break
                r.append((facts, table['m%d' % i][0] == off + lead, '%s: m%d' % ([(x[0].label, x[1], x[2]) for x in seq], i)))
                off = off + size
                if (f == 'dynamic array' or t.kind == M.Kind.DYNAMIC) and i < 2:
                    k += 1
                    if k >= len(blocks):
                        r.append((facts, z3.BoolVal(False), '%s: part %d is missing' % ([(x[0].label, x[1], x[2]) for x in seq], k + 1)))
                        break
                    off, table = z3.IntVal(0), places(env, blocks[k].inner)[0]
        return r
    b.guard('members of a struct are declared one after another, parts follow dynamic members (bounded: 3 members)', compose)

    def alignments():
        r = []
        for a, pa in itertools.product((1, 2, 4, 8), repeat=2):
            env = {}
            x = member('x', opaque(1), 'dynamic array', -pa, env)
            y = member('y', opaque(2), 'plain', 0, env)
            y.alignment = pa
            # the first member of a part carries the alignment of the whole part
            tail = [member('z%d' % k, opaque(3), 'plain', 0, env) for k in range(2)]
            for k in range(3):
                d = read(struct_text([x, y] + tail[:k], a))
                p = [z for z in d.inner if z.ctype == 'struct']
                r.append(([], z3.BoolVal(d.align == str(a) and len(p) == 1 and p[0].align == str(pa)), 'alignments %d, %d' % (a, pa)))
        return r
    for o in b.obs:
        o.backend = 'bounded'
    b.guard('a struct and its parts are declared with their wire alignment', alignments)
    return b.obs


def packed():
    """PROPHY_STRUCT packs its members and is sized to a multiple of its alignment."""
    b = Book('prophy/detail/struct.hpp PROPHY_STRUCT')

    def goals():
        src = '#include <cstddef>\n#include <prophy/prophy.hpp>\nenum E { E_A = 1 };\n'
        names = []
        for a in (1, 2, 4, 8):
            for k, tp in enumerate(('uint16_t', 'uint32_t', 'uint64_t', 'double', 'E', 'S4', 'S8')):
                nm = 'X%d_%d' % (a, k)
                if k == 0 and a == 1:
                    src += 'PROPHY_STRUCT(4) S4 { uint32_t a; uint8_t b[4]; };\nPROPHY_STRUCT(8) S8 { uint64_t a; uint8_t b[8]; };\n'
                src += 'PROPHY_STRUCT(%d) %s { uint8_t a[3]; %s b; uint8_t c; };\n' % (a, nm, tp)
                src += 'static_assert(offsetof(%s, b) == 3 && offsetof(%s, c) == 3 + sizeof(%s), "");\n' % (nm, nm, tp)
                src += 'static_assert(sizeof(%s) == (4 + sizeof(%s) + %d - 1) / %d * %d, "");\n' % (nm, tp, a, a, a)
        src += 'static_assert(sizeof(prophy::bool_t) == 4 && sizeof(E) == 4 && sizeof(S8) == 16 && alignof(S8) == 8, "");\n'
        p = subprocess.run(['clang++-18', '-std=c++11', '-fsyntax-only', '-w', '-I', REPO + '/prophy_cpp/include', '-x', 'c++', '-'], input=src,
                           capture_output=True, text=True, timeout=60)
        if p.returncode and 'static assertion' not in p.stderr and 'static_assert' not in p.stderr:
            raise Unsupported('probe does not compile: ' + p.stderr[:600])
        return [([], z3.BoolVal(p.returncode == 0), p.stderr[:1500])]
    b.guard('members follow each other without gaps, the size is rounded up to the alignment', goals)
    for o in b.obs:
        o.backend = 'clang constant evaluation'
    return b.obs


def emitter():
    return members() + paddings() + unions() + sequences() + packed()
