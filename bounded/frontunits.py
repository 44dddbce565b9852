"""Bounded contract evaluation of the compiler front end: C12 - C17, C20."""
import os
import re
import shutil
import subprocess
import sys
from vf import core
from bounded.front import *      # noqa
from bounded import front, gen


def where_ok(msg):
    return re.search(r'[^\s:]+:\d+:-?\d+: error: \S', msg) is not None


# ------------------------------------------------------------------ C12
def rich_schema(r, prefix):
    """Random schema with constant expressions mixed into sizes, enumerators and discriminators."""
    defs = S.rand_schema(r, S.Opts(multi_ext=False, max_members=r.choice([2, 4, 7]), n_structs=r.choice([2, 3, 5])), prefix)
    return defs


def c12_accept(u, idx):
    r = core.rng('c12a', idx)
    defs = []
    for k in range(8):
        defs += rich_schema(r, 'V%d' % k)
    text = S.prophy_text(defs)
    with Scratch() as s:
        src = s.write('sch.prophy', text)
        out = s.mkdir('out')
        st, msg = run_main(['--quiet'] + out_args(out) + [src])
        if st != 'ok':
            return u.fail('a schema obeying the documented rules is accepted', '%s: %s' % (st, msg), schema=text)
        files = s.read()
        try:
            load_package(files, ['sch'])
        except Exception as e:
            return u.fail('the generated Python module imports', repr(e)[:400], schema=text)
        err = cpp_syntax(files)
        if err:
            return u.fail('the generated C++ compiles', err, schema=text)
        for d in defs:
            u.ok(S.prophy_def(d))


FILLERS = {'struct': ['u8 z%d_%d', 'TI z%d_%d[2]', 'u16 z%d_%d<>', 'U* z%d_%d', 'F z%d_%d<3>'], 'union': ['%d + 70: u8 z%d', '%d + 70: F z%d'], 'enum': ['Z%d = %d + 70']}


def breakers(r):
    """(rule, schema text) pairs, each breaking one documented rule."""
    sc = r.choice(['u8', 'u16', 'u32', 'u64', 'i8', 'i32', 'i64', 'float', 'double'])
    pre = 'struct F { u8 a; };\nstruct D { %s a<>; };\nstruct G { %s a<...>; };\nstruct GD { D d; G g; };\nenum E { E_A = 1, E_B = 2 };\nunion U { 1: u8 x; };\n' % (sc, sc)
    pre += 'typedef D TD;\ntypedef G TG;\ntypedef TG TTG;\ntypedef float TF;\ntypedef TF TTF;\ntypedef E TE;\ntypedef U TU;\ntypedef u16 TI;\nconst K = %d;\nstruct NG { u8 q; TTG t; };\nstruct ND { u8 q; TD t; };\n' % r.randint(1, 9)
    unl = r.choice(['G', 'GD', 'TG', 'TTG', 'NG'])
    dyn = r.choice(['D', 'TD', 'ND', unl])
    fx = r.choice(['u8', 'u64', 'F', 'E', 'U', 'TI', sc])
    n = r.choice(['1', '3', 'K', '0x2', 'K+1'])
    res = []

    def add(rule, body):
        res.append((rule, pre + body))
        head, _, rest = body.partition(' { ')
        kind, sep = head.split()[0], ', ' if head.startswith('enum') else '; '
        if kind in FILLERS:
            # the same among other members
            ms = rest[:rest.rindex(' };')].rstrip(';').split(sep)
            for k in range(r.randint(1, 3)):
                ms.insert(r.randrange(len(ms)), r.choice(FILLERS[kind]) % (k, k))
            res.append((rule + ', among others', pre + '%s { %s%s };' % (head, sep.join(ms), ';' if kind != 'enum' else '')))
    add('unlimited type not last', 'struct X { %s a; %s b; };' % (unl, fx))
    add('greedy array not last', 'struct X { %s a<...>; %s b; };' % (fx, fx))
    add('greedy bytes not last', 'struct X { bytes a<...>; %s b<>; };' % fx)
    add('unlimited type in a fixed array', 'struct X { %s a[%s]; };' % (unl, n))
    add('unlimited type in a dynamic array', 'struct X { %s a<>; };' % unl)
    add('unlimited type in a limited array', 'struct X { %s a<%s>; };' % (unl, n))
    add('unlimited type in a greedy array', 'struct X { %s a<...>; };' % unl)
    add('unlimited type in an externally sized array', 'struct X { u8 n; %s a<@n>; };' % unl)
    add('dynamic type in a fixed array', 'struct X { %s a[%s]; };' % (dyn, n))
    add('dynamic type in a limited array', 'struct X { %s a<%s>; };' % (dyn, n))
    add('dynamic type as optional', 'struct X { %s* a; };' % dyn)
    add('dynamic type as union arm', 'union X { 1: %s a; };' % dyn)
    add('dynamic type as later union arm', 'union X { 1: u8 b; 2: %s a; };' % dyn)
    add('sizer missing', 'struct X { %s a<@n>; };' % fx)
    add('sizer missing among fields', 'struct X { u8 m; %s a<@n>; u8 k; };' % fx)
    add('sizer after its array', 'struct X { %s a<@n>; u8 n; };' % fx)
    add('sizer optional', 'struct X { u8* n; %s a<@n>; };' % fx)
    add('sizer not an integer', 'struct X { %s n; u8 a<@n>; };' % r.choice(['float', 'double', 'TF', 'TTF', 'F', 'E', 'TE', 'U', 'TU', 'D']))
    for t in ('TF', 'TTF', 'TE', 'TU'):
        add('sizer a typedef of no integer', 'struct X { %s n; u8 a<@n>; };' % t)
    add('sizer is an array', 'struct X { u8 n[2]; u8 a<@n>; };')
    add('duplicate field', 'struct X { u8 a; %s a; };' % fx)
    add('duplicate field with counter', 'struct X { u8 num_of_a; %s a<>; };' % fx)
    add('duplicate arm name', 'union X { 1: u8 a; 2: %s a; };' % fx)
    add('duplicate discriminator', 'union X { 2: u8 a; %s: %s b; };' % (r.choice(['2', '0x2', '1+1', '02', 'E_B']), fx))
    add('duplicate type name', 'struct %s { u8 a; };' % r.choice(['F', 'D', 'E', 'U', 'TD', 'K', 'E_A']))
    add('duplicate typedef name', 'typedef u8 %s;' % r.choice(['F', 'D', 'E', 'U', 'TI', 'K', 'E_B']))
    add('duplicate constant name', 'const %s = 3;' % r.choice(['F', 'K', 'E', 'U', 'TI', 'E_B']))
    add('duplicate enum name', 'enum %s { Q = 1 };' % r.choice(['F', 'K', 'E', 'U', 'TI', 'E_B']))
    add('duplicate union name', 'union %s { 1: u8 a; };' % r.choice(['F', 'K', 'E', 'U', 'TI', 'E_B']))
    add('duplicate enumerator', 'enum X { Q = 1, Q = 2 };')
    add('enumerator of another enum', 'enum X { Q = 1, E_A = 2 };')
    for z in ('0', '-1', 'K-K', '1-2', '0x0', '-K'):
        add('non-positive fixed size', 'struct X { u8 a[%s]; };' % z)
    add('non-positive limit', 'struct X { %s a<%s>; };' % (fx, r.choice(['0', '-1', 'K-K', '-K'])))
    add('non-positive bytes size', 'struct X { bytes a[%s]; };' % r.choice(['0', '-1', 'K-K', '-K']))
    for z in ('-1', '0x100000000', '4294967296', '1<<32', '1<<63', '-K'):
        add('enumerator outside 32 bits', 'enum X { X_A = %s };' % z)
        add('discriminator outside 32 bits', 'union X { %s: %s a; };' % (z, fx))
    add('unknown type', 'struct X { Nope a; };')
    add('unknown size', 'struct X { u8 a[NOPE]; };')
    return res


def c12_break(u, idx):
    r = core.rng('c12b', idx)
    with Scratch() as s:
        out = s.mkdir('out')
        for rule, text in breakers(r):
            src = s.write('sch.prophy', text)
            # whatever is generated: a rule one back end checks as well must not rest on it alone
            for outs in [OUTS] + [[o] for o in OUTS]:
                st, msg = run_main(['--quiet'] + out_args(out, outs) + [src])
                if st != 'diagnostic':
                    break
            if st == 'diagnostic':
                u.ok(text)
            elif st == 'ok':
                u.fail('rule breakers are rejected: ' + rule, 'accepted', schema=text)
            else:
                u.fail('rule breakers are rejected with a diagnostic: ' + rule, '%s %s' % (st, msg), schema=text)
        ok = 'enum E { E_A = 0, E_B = 4294967295, E_C = 0xFFFFFFFF };\nunion U { 0: u8 a; 4294967295: u8 b; };\nstruct X { u8 a[1]; i8 n; u8 b<@n>; u64 d<1>; };\n'
        src = s.write('sch.prophy', ok)
        st, msg = run_main(['--quiet'] + out_args(out) + [src])
        if st != 'ok':
            u.fail('legal boundary values are accepted', '%s %s' % (st, msg), schema=ok)


TOK = re.compile(r'\w+|<<|>>|\.\.\.|\S')
WORDS = ['u8', 'u16', 'u64', 'i8', 'float', 'double', 'bytes', '0', '1', '2', '3', '<', '>', '*', '[', ']', '...', '@', ';', ',', '(', ')', '-', '+', '<<', 'struct', 'union', 'enum', 'const', 'typedef',
         'class', 'int', 'lambda', 'None', 'import', 'template', 'namespace', 'def', 'sys', 'default', 'f0', 'f1', 'f2', '4294967295', '4294967296', '-1', '070', '0x7f']


def token_mutant(r, text):
    toks = TOK.findall(text)
    for _ in range(r.choice([1, 1, 1, 2])):
        k = r.random()
        i = r.randrange(len(toks))
        if k < 0.3:
            toks[i] = r.choice(WORDS)
        elif k < 0.6:
            j = r.randrange(len(toks))
            toks[i] = toks[j]
        elif k < 0.7:
            del toks[i]
        elif k < 0.8:
            toks.insert(i, r.choice(WORDS))
        else:
            j = r.randrange(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        if not toks:
            toks = [';']
    return ' '.join(toks).replace('; ', ';\n').replace('{ ', '{\n') + '\n'


API = ('encode', 'decode', 'copy_from', 'get_descriptor', 'print', 'swap')


def sized(text):
    """Keeps mutants within the bound: no array extents that would exhaust memory."""
    return not re.search(r'[\[<]\s*\(?\s*(\w+\s*(<<|\*)|\d{4,}|0x[0-9a-fA-F]{4,})', text)


def name_clash(nodes):
    """Known finding: a field or arm named like a definition, an enumerator or a codec function."""
    from prophyc import model
    top = set(API)
    for n in nodes:
        top.add(n.name)
        if isinstance(n, model.Enum):
            top.update(m.name for m in n.members)
    return any(m.name in top for n in nodes if isinstance(n, (model.Struct, model.Union)) for m in n.members)


KEYWORDS = ('class int new default private operator virtual namespace and not this template static_assert nullptr constexpr explicit '
            'lambda None True def pass import async is in yield global nonlocal finally raise').split()
MINE = set('include const enum struct union typedef u8 u16 u32 u64 i8 i16 i32 i64 r32 r64 float double bytes byte'.split())


def keyword_mutant(r, text):
    """One name of the schema is a reserved word of a target language."""
    names = sorted(set(re.findall(r'\b[A-Za-z_]\w*', re.sub(r'(?s)//.*?\n|/\*.*?\*/|"[^"]*"', ' ', text))) - MINE)
    return re.sub(r'\b%s\b' % r.choice(names), r.choice(KEYWORDS), text)


def c12_mutants(u, idx):
    r = core.rng('c12m', idx)
    seen = 0
    with Scratch() as s:
        for rep in range(120):
            base = S.prophy_text(S.rand_schema(r, S.Opts(max_members=3, n_structs=2)))
            text = token_mutant(r, base) if rep % 6 else keyword_mutant(r, base)
            if not sized(text):
                continue
            src = s.write('sch.prophy', text)
            out = s.mkdir('out')
            st, msg = run_main(['--quiet'] + out_args(out) + [src])
            if st == 'diagnostic':
                u.ok(('rejected', msg[-40:]))
                continue
            if st != 'ok':
                u.fail('prophyc answers', '%s %s' % (st, msg), schema=text)
                continue
            if name_clash(msg['sch']):
                continue
            files = s.read()
            try:
                load_package(files, ['sch'])
            except Exception as e:
                u.fail('whatever is accepted imports in Python', repr(e)[:300], schema=text)
                continue
            seen += 1
            if seen > 14:
                continue
            err = cpp_syntax(files)
            if err:
                u.fail('whatever is accepted compiles in C++', err, schema=text)
            else:
                u.ok(text)


# ------------------------------------------------------------------ C13
def char_mutant(r, text):
    c = list(text)
    for _ in range(r.choice([1, 1, 2, 4, 9])):
        if not c:
            c = [' ']
        k = r.random()
        i = r.randrange(len(c))
        if k < 0.3:
            c[i] = r.choice('{}[]()<>;:=,.@#"*/+-\n \t\\\'&%$!0123456789xXaéstruct\0')
        elif k < 0.5:
            del c[i:i + r.choice([1, 1, 3, 20])]
        elif k < 0.7:
            j = r.randrange(len(c))
            c[i:i] = c[j:j + r.choice([1, 5, 40])]
        elif k < 0.8:
            c = c[:i]
        else:
            j = r.randrange(len(c))
            c[i], c[j] = c[j], c[i]
    return ''.join(c)


SNIPPETS = ['struct A { A a; };', 'struct A { B b; };\nstruct B { A a; };', 'typedef A B;\ntypedef B A;', 'const A = B;\nconst B = A;', 'const A = A;', 'enum E { A = B, B = A };',
            'const A = 1 << 100000000000;', 'const A = 1 / 0;', 'const A = 1 << -1;', 'const A = ' + '(' * 300 + '1' + ')' * 300 + ';', 'const A = ' + '9' * 6000 + ';', 'struct X { u8 a[1 << 62]; };', 'struct X { u8 a[99999999999999999999]; };',
            'struct {};', 'struct X {};', 'union U {};', 'enum E {};', '#include "x', '#include <x>', '#pragma "x"', '#include ""', '#include "/"', '#include "."', '/* never closed', '// no newline', '"', '#', 'é', '\0', '',
            'struct X { u8 a<@a>; };', 'struct X { u8 a<@>; };', 'union U { A: u8 a; };', 'struct X { bytes a; };', 'typedef bytes B;', 'struct X { bytes* a; };', 'enum E { A };', 'struct X { u8 a[E]; };', 'const X = X + 1;', 'struct X { X* a; };', 'typedef X X;', 'union U { 1: U u; };',
            'const A = ' + '-' * 3000 + '1;', 'const A = ' + '+'.join(['1'] * 3000) + ';', '\n'.join('struct S%d { %s a; };' % (i, 'u8' if not i else 'S%d' % (i - 1)) for i in range(200)),
            '\n'.join('typedef %s T%d;' % ('u8' if not i else 'T%d' % (i - 1), i) for i in range(1200)), '\n'.join('const C%d = %s;' % (i, '1' if not i else 'C%d' % (i - 1)) for i in range(1200))]


def outputs_present(s, outs, names=('sch',)):
    return [n + x for n in names for o in outs for x in SUFFIX[o] if not os.path.exists(os.path.join(s.dir, 'out', n + x))]


def judge(u, s, st, msg, outs, schema_text, names=('sch',), located=False, **data):
    if st == 'ok':
        missing = outputs_present(s, outs, names)
        if missing:
            return u.fail('success writes all requested outputs', 'missing %r' % missing, **data)
    elif st == 'hang':
        return u.fail('prophyc terminates', msg, **data)
    elif st == 'crash':
        return u.fail('no internal exception escapes', msg, **data)
    elif not msg.strip():
        return u.fail('the diagnostic has a text', repr(msg), **data)
    elif located and 'reserved word' not in msg and 'is not supported' not in msg and not where_ok(msg):
        return u.fail('schema diagnostics carry file:line:column', msg, **data)
    u.ok((st, msg if st != 'ok' else schema_text))


def c13_text(u, idx):
    r = core.rng('c13t', idx)
    with Scratch() as s:
        out = s.mkdir('out')
        pool = [S.prophy_text(S.rand_schema(r, S.Opts(max_members=4, n_structs=3))) for _ in range(6)]
        cases = []
        if idx < 4:
            cases += SNIPPETS[idx::4]
        for k in range(60):
            base = r.choice(pool)
            t = token_mutant(r, base) if k % 2 else char_mutant(r, base)
            if r.random() < 0.1:
                t = r.choice(SNIPPETS[:12]) + '\n' + t
            cases.append(t)
        for text in cases:
            for fn in os.listdir(out):
                os.unlink(os.path.join(out, fn))
            src = s.write('sch.prophy', text)
            outs = r.choice([('python',), ('cpp_full',), ('cpp',), OUTS, ('prophy',)])
            st, msg = run_main(['--quiet'] + out_args(out, outs) + [src])
            judge(u, s, st, msg, outs, text, located=True, schema=text, outputs=list(outs))


XML = ['', '<xml', '<xml></xml>', '<a><b></a>', '<xml><struct/></xml>', '<xml><struct name="A"/></xml>', '<xml><struct name="A"><member/></struct></xml>', '<xml><struct name="A"><member name="x" type="A"/></struct></xml>',
       '<xml><struct name="A"><member name="x" type="B"/></struct><struct name="B"><member name="x" type="A"/></struct></xml>', '<xml><typedef name="A" type="B"/><typedef name="B" type="A"/></xml>', '<xml><typedef name="A" type="A"/></xml>',
       '<xml><constant name="A" value="B"/><constant name="B" value="A"/></xml>', '<xml><constant name="A" value="A"/></xml>', '<xml><constant name="A" value="1/0"/></xml>', '<xml><constant name="A" value="1 &lt;&lt; 99999999999"/></xml>', '<xml><constant name="A" value="shiftLeft(1"/></xml>', '<xml><constant name="A" value="shiftLeft(1,2"/></xml>', '<xml><constant name="A" value="bitMaskOr(shiftLeft(1,2),1)"/></xml>',
       '<xml><enum name="E"><enum-member name="A" value="B"/><enum-member name="B" value="A"/></enum></xml>', '<xml><enum name="E"><enum-member name="A" value="1"/><enum-member name="B" value="1"/></enum></xml>', '<xml><union name="U"><member name="a" type="U" discriminatorValue="1"/></union></xml>', '<xml><union name="U"><member name="a" type="u8"/></union></xml>',
       '<xml><include href="nope.xml"/></xml>', '<xml><include href="sch.xml"/></xml>', '<xml><include href=""/></xml>', '<xml><struct name="A"><member name="x" type="u8"><dimension size="B"/></member></struct></xml>', '<xml><struct name="A"><member name="x" type="u8"><dimension/></member></struct></xml>', '<xml><struct name="A"><member name="x" type="u8"><dimension variableSizeFieldName="@n"/></member></struct></xml>', '<xml><struct name="A"><member name="x" type="u8"><dimension variableSizeFieldName=""/></member></struct></xml>',
       '<xml><struct name="A"><member name="x" type="Nope"/></struct></xml>', '<xml><typedef name="T"/></xml>', '<xml><typedef name="T" primitiveType="7 bits"/></xml>', '<xml><struct name="A"><member name="x" type="u8"><dimension size="-3"/></member></struct></xml>', '<xml><struct name="A"><member name="x" type="u8"><dimension size="1/0"/></member></struct></xml>', '<?xml version="1.0" encoding="latin-9"?><xml/>', '<!DOCTYPE x [<!ENTITY a "b">]><xml>&a;&c;</xml>',
       '<xml><struct name="A"><member name="x" type="u8"/><member name="x" type="u8"/></struct></xml>', '<xml><struct name="A"><member name="x" type="u8" optional="true"><dimension size="2"/></member></struct></xml>', '<xml><struct name="A"><member name="a" type="u8"/></struct><struct name="A"><member name="b" type="u8"/></struct></xml>']


def xml_mutant(r, text):
    k = r.random()
    if k < 0.4:
        return char_mutant(r, text)
    attrs = re.findall(r'(\w+)="([^"]*)"', text)
    if not attrs:
        return text
    a, b = r.choice(attrs), r.choice(attrs)
    if k < 0.7:
        return text.replace('%s="%s"' % a, '%s="%s"' % (a[0], b[1]), 1)
    if k < 0.85:
        return text.replace('%s="%s"' % a, '%s="%s"' % (a[0], r.choice(['', '0', '-1', 'nope', '1/0', 'shiftLeft(1, 3)', '1 +', ' ', 'u8', 'true', '4294967296'])), 1)
    return text.replace(' %s="%s"' % a, '', 1)


def patch_text(r, defs):
    names = [d.name for d in defs] + ['Nope']
    lines = []
    for _ in range(r.randint(0, 4)):
        d = r.choice(defs)
        fields = [m.name for m in d.members] if isinstance(d, Struct) else ['a0', 'f0']
        f = [r.choice(fields + ['nope'])]
        act = r.choice(['type', 'insert', 'remove', 'greedy', 'static', 'limited', 'dynamic', 'struct', 'rename', 'nope', ''])
        params = {'type': f + [r.choice(['u8', 'Nope'] + names)], 'insert': [r.choice(['0', '1', '-1', '999', 'x', '--1', '\xb2', '+-2', '0x1', '1.0', '1e3', '99999999999999999999', '-99999999999999999999'])] + ['new', r.choice(['u8', 'Nope'])], 'remove': f, 'greedy': f, 'static': f + [r.choice(['3', '0', '-1', 'nope', '1/0'])],
                  'limited': f + [r.choice(fields)], 'dynamic': f + [r.choice(fields + ['nope'])], 'struct': [], 'rename': r.choice([f + ['zz'], ['Zz'], f + [fields[0] if fields else 'z'], [names[0]]]), 'nope': f, '': []}[act]
        if r.random() < 0.15:
            params = params[:-1] if r.random() < 0.5 else params + ['x']
        lines.append(' '.join([r.choice([d.name, d.name, d.name, d.name, 'Nope']), act] + params))
    return '\n'.join(lines) + '\n'


PATCH_XML = '<xml><struct name="A"><member name="x" type="u8"/><member name="y" type="u32"><dimension size="3"/></member></struct><union name="U"><member discriminatorValue="1" name="a" type="u8"/></union><enum name="E"><enum-member name="E_A" value="1"/></enum><constant name="K" value="3"/><typedef name="T" type="A"/></xml>'
PATCH_BAD = ['A type nope u8', 'A type x', 'A type x u8 u8', 'U type a u8', 'A insert x new u8', 'A insert --1 new u8', 'A insert 1- new u8', 'A insert \xb2 new u8', 'A insert 0x1 new u8', 'A insert 0 new', 'U insert 0 new u8', 'E insert 0 n u8', 'A remove nope', 'A remove', 'A remove x y', 'U remove a', 'A dynamic nope x', 'A dynamic y', 'U dynamic a b', 'A greedy nope', 'A greedy', 'U greedy a', 'A static nope 3', 'A static y', 'U static a 3',
       'A limited nope x', 'A limited y nope', 'A limited y', 'U limited a b', 'A limited x y', 'A struct', 'U struct x', 'E struct', 'A rename nope z', 'A rename', 'A rename a b c', 'E rename a b', 'K remove x', 'T greedy x', 'A nonsense x', 'A']
PATCH_GOOD = ['Nope type a u8', 'Nope remove', 'Nope nonsense', 'Nope struct', 'Nope rename', '', '   ', 'A rename x z', 'U struct', 'A rename B', 'E rename F', 'A insert 999 z u8', 'A static x 3', 'A greedy y', 'A type x u64']


def redefined(r):
    """Typedefs, constants, enums and structs that share a few names, some defined several times."""
    ns = ['A', 'B', 'C'][:r.choice([2, 3, 3])]
    val = lambda: r.choice(ns + ['1', '2', r.choice(ns) + '+1'])
    kind = r.choice(['typedef', 'constant', 'any', 'any'])
    out = []
    for _ in range(r.randrange(2, 7)):
        k = kind if kind != 'any' else r.choice(['typedef', 'constant', 'enum', 'struct', 'union'])
        n = r.choice(ns)
        if k == 'typedef':
            out.append('<typedef name="%s" type="%s"/>' % (n, r.choice(ns + ['u8', 'u32'])))
        elif k == 'constant':
            out.append('<constant name="%s" value="%s"/>' % (n, val()))
        elif k == 'enum':
            out.append('<enum name="%s"><enum-member name="%s" value="%s"/></enum>' % (n, r.choice(ns + ['K']), val()))
        elif k == 'struct':
            out.append('<struct name="%s"><member name="x" type="%s"><dimension size="%s"/></member></struct>' % (n, r.choice(ns + ['u8']), val()))
        else:
            out.append('<union name="%s"><member name="x" type="%s" discriminatorValue="%s"/></union>' % (n, r.choice(ns + ['u8']), val()))
    if r.random() < 0.7:
        out.append('<struct name="S"><member name="x" type="%s"/><member name="y" type="u8"><dimension size="%s"/></member></struct>' % (r.choice(ns), r.choice(ns)))
    return '<xml>%s</xml>' % ''.join(out)


def c13_isar(u, idx):
    r = core.rng('c13i', idx)
    with Scratch() as s:
        out = s.mkdir('out')
        cases = list(XML[idx::4]) if idx < 4 else []
        if idx == 4:
            cases += [(PATCH_XML, p) for p in PATCH_BAD + PATCH_GOOD]
        for k in range(50):
            defs = S.rand_schema(r, S.Opts(max_members=4, n_structs=3, floats=False))
            if r.random() < 0.5:
                defs = list(defs)
                r.shuffle(defs)
            text = isar_text(defs)
            p = None
            if k % 2:
                p = patch_text(r, defs)
                if r.random() < 0.2:
                    p = char_mutant(r, p)
            if k % 3:
                text = xml_mutant(r, text)
            cases.append((text, p))
        cases += [redefined(r) for _ in range(25)]
        for c in cases:
            text, p = c if isinstance(c, tuple) else (c, None)
            for fn in os.listdir(out):
                os.unlink(os.path.join(out, fn))
            src = s.write('sch.xml', text)
            outs = r.choice([('python',), ('cpp_full',), ('cpp',), OUTS, ('prophy',)])
            args = ['--quiet', '--isar'] + out_args(out, outs)
            if p is not None:
                args += ['--patch', s.write('p.txt', p)]
            st, msg = run_main(args + [src])
            judge(u, s, st, msg, outs, text, isar=text, patch=p, outputs=list(outs))


def c13_files(u, idx):
    r = core.rng('c13f', idx)
    with Scratch() as s:
        out = s.mkdir('out')
        s.mkdir('sub/dir.prophy')
        graphs = [{'a': ['a']}, {'a': ['b'], 'b': ['a']}, {'a': ['b'], 'b': ['c'], 'c': ['a']}, {'a': ['b', 'c'], 'b': ['c'], 'c': ['b']}, {'a': ['nope']}, {'a': ['b'], 'b': ['nope']}, {'a': ['b', 'b']}, {'a': ['sub/dir']}, {'a': ['b'], 'b': []}]
        for n in range(6):
            g = {}
            names = 'abcdef'[:r.randint(2, 6)]
            for x in names:
                g[x] = [r.choice(names + 'z') for _ in range(r.randint(0, 2))]
            graphs.append(g)
        for g in graphs:
            for isar in (False, True):
                text = {}
                for n, inc in g.items():
                    if isar:
                        text[n] = '<xml>%s<struct name="S%s"><member name="x" type="u8"/></struct></xml>' % (''.join('<include href="%s.xml"/>' % i for i in inc), n)
                    else:
                        text[n] = ''.join('#include "%s.prophy"\n' % i for i in inc) + 'struct S%s { u8 x; };\n' % n
                    s.write(n + ('.xml' if isar else '.prophy'), text[n])
                for fn in os.listdir(out):
                    os.unlink(os.path.join(out, fn))
                ins = sorted(g)[:r.choice([1, 1, 2, 9])]
                args = ['--quiet'] + (['--isar'] if isar else []) + out_args(out, ('python',)) + [s.path(n + ('.xml' if isar else '.prophy')) for n in ins]
                st, msg = run_main(args)
                reach, todo = set(), list(ins)
                while todo:
                    x = todo.pop()
                    if x not in reach:
                        reach.add(x)
                        todo += g.get(x, [])
                bad = any(x not in g for x in reach) or any(cyclic(g, x) for x in reach)
                if not isar and bad and st == 'ok':
                    u.fail('missing and cyclic includes are reported', 'accepted', files=text, inputs=ins)
                    continue
                judge(u, s, st, msg, ('python',), repr(text), names=ins, files=text, inputs=ins, isar=isar)
        ok = s.write('ok.prophy', 'struct X { u8 a; };\n')
        s.write('bin.prophy', b'\xff\xfe\x00struct')
        opts = [[], ['--python_out'], ['--python_out', s.path('nope'), ok], ['--python_out', ok, ok], [ok], ['--nope', ok], ['--python_out', out, s.path('nope.prophy')], ['--python_out', out, s.path('sub')], ['--isar', '--sack', ok, '--python_out', out],
                ['-I', s.path('nope'), '--python_out', out, ok], ['-p', s.path('nope'), '--python_out', out, ok], ['-S', ok, '--python_out', out, ok], ['--version'], ['--python_out', out, ok, ok], ['--void_out', ok], ['--python_out', out, '--isar', ok],
                ['--python_out', out, s.path('bin.prophy')], ['--python_out', out, '-p', s.path('bin.prophy'), ok], ['--python_out', out], ['--quiet']]
        for o in opts:
            st, msg = run_main(o)
            judge(u, s, st, msg, (), repr(o), args=o)


def cyclic(g, x):
    seen, todo = set(), list(g.get(x, []))
    while todo:
        y = todo.pop()
        if y == x:
            return True
        if y not in seen:
            seen.add(y)
            todo += g.get(y, [])
    return False


# ------------------------------------------------------------------ C14
def expr(r, names, depth, level=0):
    """(text, value) of a random expression; precedence: shifts bind tightest, then * /, then + -."""
    k = r.random()
    if depth <= 0 or k < 0.25:
        if names and r.random() < 0.4:
            n = r.choice(sorted(names))
            return n, names[n]
        v = r.choice([0, 1, 2, 3, 5, 7, 8, 10, 16, 63, 64, 100, 255, 256, 4095, 65535, 1000000, 2 ** 31, 2 ** 32 - 1, r.randint(0, 5000)])
        f = r.choice(['%d', '%d', '0x%x', '0x%X', '0%o'] if oct_ok(names) else ['%d', '%d', '0x%x', '0x%X'])
        return (f % v if v or f != '0%o' else '0'), v
    if k < 0.35:
        t, v = expr(r, names, depth - 1, 3)
        return '-' + t, -v
    if k < 0.45:
        t, v = expr(r, names, depth - 1, 0)
        return '(%s)' % t, v
    op = r.choice(['+', '-', '*', '/', '<<', '>>', '+', '-', '*'])
    lv = {'+': 0, '-': 0, '*': 1, '/': 1, '<<': 2, '>>': 2}[op]
    for _ in range(20):
        a, x = expr(r, names, depth - 1, lv)
        b, y = expr(r, names, depth - 1, lv + 1)
        if op == '/' and y == 0 or op in ('<<', '>>') and not 0 <= y < 24:
            continue
        v = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x // y, '<<': lambda: x << y, '>>': lambda: x >> y}[op]()
        if abs(v) < 2 ** 60:
            sp = r.choice(['', ' '])
            t = a + sp + op + sp + b
            return ('(%s)' % t if lv < level else t), v
    return '1', 1


OCT = {}


def oct_ok(names):
    return OCT.get('on', True)


def c14_unit(u, idx):
    r = core.rng('c14', idx)
    from prophyc import calc
    names = {}
    OCT['on'] = True
    split = r.random() < 0.5
    parts = [[], []]
    consts, enums, sizes, discs = [], [], [], []
    cut = 14
    for i in range(28):
        part = parts[0 if i < cut or not split else 1]
        t, v = expr(r, names, r.choice([1, 2, 3, 4, 5]))
        k = r.random()
        if k < 0.5 and -2 ** 63 <= v < 2 ** 63:
            n = 'C%d' % i
            part.append('const %s = %s;' % (n, t))
            consts.append((n, t, v, i < cut or not split))
            names[n] = v
        elif 0 <= v < 2 ** 32 and k < 0.8:
            n = 'E%d_A' % i
            t2, v2 = expr(r, dict(names, **{n: v}), 2)
            if not 0 <= v2 < 2 ** 32 or v2 == v:
                t2, v2 = str((v + 1) % 2 ** 32), (v + 1) % 2 ** 32
            part.append('enum E%d { %s = %s, E%d_B = %s };' % (i, n, t, i, t2))
            enums.append(('E%d' % i, [(n, v, t), ('E%d_B' % i, v2, t2)], i < cut or not split))
            names[n], names['E%d_B' % i] = v, v2
        elif 0 < v < 4000:
            form = r.choice(['u8 a[%s];', 'u16 a<%s>;', 'bytes a[%s];', 'bytes a<%s>;', 'u64 a[%s];'])
            part.append('struct S%d { %s };' % (i, form % t))
            sizes.append(('S%d' % i, form, v, i < cut or not split, t))
        elif 0 <= v < 2 ** 32:
            part.append('union U%d { %s: u8 a; };' % (i, t))
            discs.append(('U%d' % i, v, i < cut or not split, t))
    texts = {'one': '\n'.join(parts[0]) + '\n'}
    if split:
        texts['two'] = '#include "one.prophy"\n' + '\n'.join(parts[1]) + '\n'
    with Scratch() as s:
        out = s.mkdir('out')
        ins = [s.write(n + '.prophy', texts[n]) for n in sorted(texts)]
        st, msg = run_main(['--quiet'] + out_args(out) + ins)
        kw = dict(files=texts)
        if st != 'ok':
            return u.fail('constant expressions are accepted', '%s %s' % (st, msg), **kw)
        nodes, files = msg, s.read()
    try:
        mods = load_package(files, sorted(texts))
    except Exception as e:
        return u.fail('generated Python imports', repr(e)[:300], **kw)
    byname = dict((n.name, n) for m in nodes.values() for n in m)
    asserts = {'one': [], 'two': []}
    fasserts = {'one': [], 'two': []}

    def check(what, got, want, t):
        if got != want:
            u.fail(what, '%s: got %r, integer arithmetic gives %r' % (t, got, want), expression=t, **kw)
        else:
            u.ok((what, t))
    for n, t, v, first in consts:
        f = 'one' if first else 'two'
        check('Python constant', getattr(mods[f], n, None), v, t)
        if abs(v) < 2 ** 31:
            asserts[f].append(('%s == %d' % (n, v), t))
            fasserts[f].append(('prophy::generated::%s == %d' % (n, v), t))
    for n, ms, first in enums:
        f = 'one' if first else 'two'
        for m, v, t in ms:
            check('Python enumerator constant', getattr(mods[f], m, None), v, t)
            check('Python enumerator', getattr(mods[f], n)._name_to_int.get(m), v, t)
            asserts[f].append(('(unsigned long long)%s == %dULL' % (m, v), t))
            fasserts[f].append(('(unsigned long long)prophy::generated::%s == %dULL' % (m, v), t))
    W8 = {'u8': 1, 'u16': 2, 'u64': 8, 'bytes': 1}
    for n, form, v, first, t in sizes:
        f = 'one' if first else 'two'
        a = dict((d.name, d.type) for d in getattr(mods[f], n)._descriptor)['a']
        es = W8[form.split()[0]]
        check('Python descriptor size', a._SIZE, v * es, t)
        m = [x for x in byname[n].members if x.name == 'a'][0]
        check('model array size', (m.numeric_size, m.byte_size), (v, v * es), t)
        asserts[f].append(('sizeof(((%s*)0)->a) == %d' % (n, v * es), t))
        size = (4 if '<' in form else 0) + v * es
        size = (size + max(es, 4 if '<' in form else 1) - 1) // max(es, 4 if '<' in form else 1) * max(es, 4 if '<' in form else 1)
        fasserts[f].append(('prophy::generated::%s::encoded_byte_size == %d' % (n, size), t))
    for n, v, first, t in discs:
        f = 'one' if first else 'two'
        check('Python discriminator', getattr(mods[f], n)._descriptor[0].discriminator, v, t)
        asserts[f].append(('(unsigned long long)%s::discriminator_a == %dULL' % (n, v), t))
        fasserts[f].append(('(unsigned long long)prophy::generated::%s::discriminator_a == %dULL' % (n, v), t))
    tus = []
    for f in texts:
        for suf, al in (('.pp.hpp', asserts), ('.ppf.hpp', fasserts)):
            tus.append(('a_%s%s.cpp' % (f, suf), '#include "%s%s"\n' % (f, suf) + '\n'.join('static_assert(%s, "VALUE %d");' % (a, k) for k, (a, _) in enumerate(al[f]))))
    err = cpp_syntax(files, tus, only=set(t[0] for t in tus))
    if err:
        m = re.search(r'error: static assertion failed.*VALUE (\d+)', err) or re.search(r'VALUE (\d+)', err)
        u.fail('C++ values equal integer arithmetic', err[:500], **kw)
    else:
        u.evals += sum(map(len, asserts.values())) + sum(map(len, fasserts.values()))
    OCT['on'] = False
    for k in range(60):
        t, v = expr(r, names, r.choice([1, 2, 3, 4, 6]))
        try:
            got = calc.eval(t, names)
        except Exception as e:
            got = repr(e)
        if got != v:
            u.fail('the model-time evaluator gives the same integer', '%s: got %r, integer arithmetic gives %r' % (t, got, v), expression=t, names=names)
        else:
            u.ok(('calc', t))
    c14_isar(u, r)


def c14_isar(u, r):
    """isar constants, enumerators, sizes and discriminators go through the model-time evaluator."""
    names, defs, want = {}, [], {}
    asserts, fasserts = [], []
    OCT['on'] = False
    esc = lambda t: t.replace('<', '&lt;').replace('>', '&gt;')     # noqa

    def text(depth, lo, hi):
        """An expression with its value in [lo, hi], if one is found."""
        for _ in range(20):
            t, v = expr(r, names, depth)
            if r.random() < 0.2 and abs(v) < 2 ** 20:
                k, j = r.randint(0, 3), r.choice([None, 0, 1])
                t = 'shiftLeft(%s, %s)' % (t, k if j is None else 'shiftLeft(%d, %d)' % (k, j))
                v <<= k << (j or 0)
            if lo <= v <= hi:
                return t, v
        v = r.randint(max(lo, 0), min(hi, 40))
        return str(v), v
    included = {}
    for f in ['k1', 'k2', 'k3'][:r.choice([0, 0, 2, 3])]:
        own = []
        for j in range(2):
            v = r.randint(1, 40)
            n = '%s_%d' % (f.upper(), j)
            own.append('<constant name="%s" value="%s"/>' % (n, v) if j == 0 or r.random() < 0.5 else
                       '<enum name="E%s"><enum-member name="%s" value="%s_0 + %d"/></enum>' % (f, n, f.upper(), v))
            names[n] = v if own[-1].startswith('<const') else v + names['%s_0' % f.upper()]
            want[n] = (names[n], n)
        included[f] = '<xml>%s</xml>' % ''.join(own)
    for i in range(12):
        kind = r.choice(['const', 'const', 'enum', 'size', 'size', 'arm'])
        if kind == 'size':
            form = r.choice(['fixed', 'limited', 'plane'])
            t, v = text(3, 1, 3000)
            dim = 'size="%s"' % esc(t)
            if form == 'limited':
                dim = 'isVariableSize="true" ' + dim
            elif form == 'plane':
                t2, v2 = text(2, 1, 9)
                dim, v = dim + ' size2="%s"' % esc(t2), v * v2
            defs.append('<struct name="S%d"><member name="a" type="u16"><dimension %s/></member></struct>' % (i, dim))
            size = 2 * v + (form == 'limited') * (4 + v % 2 * 2)
            want['S%d' % i] = (size, 'S%d._SIZE' % i)
            asserts.append('sizeof(((S%d*)0)->a) == %d' % (i, 2 * v))
            fasserts.append('prophy::generated::S%d::encoded_byte_size == %d' % (i, size))
        elif kind == 'enum':
            t, v = text(3, -2 ** 31, 2 ** 32 - 1)
            if r.random() < 0.3 and v > 0:
                t, v = '0 - (%s)' % t, -v
            if not -2 ** 31 <= v < 2 ** 32:
                continue
            n, w = 'E%d_A' % i, v % 2 ** 32
            defs.append('<enum name="E%d"><enum-member name="%s" value="%s"/></enum>' % (i, n, esc(t)))
            want[n] = (w, n)
            asserts.append('(unsigned long long)(unsigned)%s == %dULL' % (n, w))
            fasserts.append('(unsigned long long)(unsigned)prophy::generated::%s == %dULL' % (n, w))
            if v >= 0:
                names[n] = v
        elif kind == 'arm':
            t, v = text(3, 0, 2 ** 32 - 1)
            defs.append('<union name="U%d"><member name="a" type="u8" discriminatorValue="%s"/></union>' % (i, esc(t)))
            want['U%d' % i] = (v, 'U%d._descriptor[0].discriminator' % i)
            asserts.append('(unsigned long long)U%d::discriminator_a == %dULL' % (i, v))
            fasserts.append('(unsigned long long)prophy::generated::U%d::discriminator_a == %dULL' % (i, v))
        else:
            t, v = text(3, -2 ** 62, 2 ** 62)
            n = 'C%d' % i
            defs.append('<constant name="%s" value="%s"/>' % (n, esc(t)))
            want[n] = (v, n)
            names[n] = v
            if abs(v) < 2 ** 31:
                asserts.append('%s == %d' % (n, v))
                fasserts.append('prophy::generated::%s == %d' % (n, v))
    r.shuffle(defs)
    xml = '<xml>%s%s</xml>' % (''.join('<include href="%s.xml"/>' % f for f in included), '\n'.join(defs))
    with Scratch() as s:
        out = s.mkdir('out')
        paths = [s.write(f + '.xml', t) for f, t in included.items()]
        st, msg = run_main(['--quiet', '--isar'] + out_args(out) + paths + [s.write('sch.xml', xml)])
        if st != 'ok':
            return u.fail('isar constant expressions are accepted', '%s %s' % (st, msg), isar=xml, included=included)
        files = s.read()
    try:
        mods = load_package(files, list(included) + ['sch'])
        seen = {}
        for f in list(included) + ['sch']:
            seen.update(vars(mods[f]))
    except Exception as e:
        return u.fail('isar constant expressions are accepted', repr(e)[:300], isar=xml, included=included)
    for n, (v, where) in want.items():
        try:
            got = eval(where, dict(seen))
        except Exception as e:
            got = repr(e)
        if got != v:
            u.fail('isar expressions denote the same integer', '%s is %r, expected %r' % (where, got, v), isar=xml, included=included)
        else:
            u.ok(('isar', n, v))
    tus = [('a_sch%s.cpp' % suf, '#include "sch%s"\n' % suf + '\n'.join('static_assert(%s, "VALUE %d");' % (a, k) for k, a in enumerate(al)))
           for suf, al in (('.pp.hpp', asserts), ('.ppf.hpp', fasserts))]
    err = cpp_syntax(files, tus, only=set(t[0] for t in tus))
    if err:
        u.fail('C++ values of isar expressions equal integer arithmetic', err[:500], isar=xml, included=included)
    else:
        u.evals += len(asserts) + len(fasserts)


# ------------------------------------------------------------------ C15
def isarable(d):
    """isar has no octal text and dimensions in a plain struct cannot hold every form; all our forms map."""
    return True


def depends(d):
    """Names definition d needs (types, constants, enumerators)."""
    res = set()

    def ty(t):
        if isinstance(t, (Enum, Typedef, Struct, Union)):
            res.add(t.name)
    if isinstance(d, Typedef):
        ty(d.target)
    elif isinstance(d, Struct):
        for m in d.members:
            ty(m.type)
            res.update(re.findall(r'[A-Za-z_]\w*', str(m.size_text)) if m.size_text and m.size else [])
    elif isinstance(d, Union):
        for a in d.arms:
            ty(a.type)
            res.update(re.findall(r'[A-Za-z_]\w*', str(a.disc_text)))
    elif isinstance(d, Const):
        res.update(re.findall(r'[A-Za-z_]\w*', str(d.text)))
    elif isinstance(d, Enum):
        for m in d.members:
            if len(m) > 2:
                res.update(re.findall(r'[A-Za-z_]\w*', str(m[2])))
        res -= set(m[0] for m in d.members)
    return res


def tangled(r, prefix=''):
    """Random schema whose constants, enumerators, sizes and discriminators refer to each other."""
    defs = S.rand_schema(r, S.Opts(floats=False, max_members=4, n_structs=r.choice([3, 5, 8]), multi_ext=False), prefix)
    known = {}
    res = []
    extra = 0
    for d in defs:
        if r.random() < 0.4:
            cn = r.choice(['%sX%d', '%sX%d', 'x_%s%d']) % (prefix, extra)
            few = [n for n in sorted(known) if known[n] < 2 ** 30]
            if few and r.random() < 0.7:
                n, n2 = r.choice(few), r.choice(few)
                k = r.randint(1, 3)
                c = Const(cn, known[n] + k, '%s + %d' % (n, k)) if r.random() < 0.7 else Const(cn, known[n2] + known[n], '%s+%s' % (n2, n))
            else:
                c = Const(cn, r.randint(1, 4))
            extra += 1
            known[c.name] = c.value
            res.append(c)
        if isinstance(d, Enum):
            ms = []
            for m in d.members:
                cands = [n for n in sorted(known) if known[n] == m[1]] or None
                small = [n for n in sorted(known) if known[n] < 2 ** 31]
                vals = [x[1] for x in ms]
                if small and r.random() < 0.4:
                    n = r.choice(small)
                    if known[n] not in vals and known[n] not in [x[1] for x in d.members]:
                        ms.append((m[0], known[n], n))
                        continue
                ms.append(m[:2])
            d = rebuild(d, members=ms)
            for m in ms:
                known[m[0]] = m[1]
        elif isinstance(d, Struct):
            ms = []
            for m in d.members:
                small = [n for n in sorted(known) if 0 < known[n] < 6]
                if m.form in (FIXED_ARR, LIM_ARR) and small and r.random() < 0.6:
                    n = r.choice(small)
                    n2, way = r.choice(small), r.random()
                    if way < 0.5:
                        m = rebuild(m, size=known[n], size_text=n)
                    elif way < 0.75:
                        m = rebuild(m, size=known[n] + 1, size_text=n + '+1')
                    else:
                        m = rebuild(m, size=known[n] + known[n2], size_text='%s+%s' % (n, n2))
                ms.append(m)
            d = rebuild(d, members=ms)
        elif isinstance(d, Union):
            arms = []
            for a in d.arms:
                small = [n for n in sorted(known) if 0 <= known[n] < 2 ** 32 and all(known[n] != x.disc for x in d.arms + arms)]
                if small and r.random() < 0.5:
                    n = r.choice(small)
                    a = rebuild(a, disc=known[n], disc_text=n)
                arms.append(a)
            d = rebuild(d, arms=arms)
        elif isinstance(d, Const):
            known[d.name] = d.value
        res.append(d)
    return relink(res)


def rebuild(x, **kw):
    import copy
    y = copy.copy(x)
    for k, v in kw.items():
        setattr(y, k, v)
    return y


def relink(defs):
    """Types refer to the rebuilt definitions."""
    by = dict((d.name, d) for d in defs)

    def t(x):
        return by.get(x.name, x) if isinstance(x, (Enum, Typedef, Struct, Union)) else x
    for d in defs:
        if isinstance(d, Typedef):
            d.target = t(d.target)
        elif isinstance(d, Struct):
            d.members = [rebuild(m, type=t(m.type)) for m in d.members]
        elif isinstance(d, Union):
            d.arms = [rebuild(a, type=t(a.type)) for a in d.arms]
    return defs


def grouped(r, defs):
    """isar text whose definitions sit in nested sections."""
    out = ['<dom>']
    depth = 1
    for d in defs:
        if r.random() < 0.3:
            out.append('<section>')
            depth += 1
        out.append(isar_def(d))
        if depth > 1 and r.random() < 0.3:
            out.append('</section>')
            depth -= 1
    return '\n'.join(out + ['</section>'] * (depth - 1) + ['</dom>'])


def c15_unit(u, idx):
    r = core.rng('c15', idx)
    from prophyc import model
    from prophyc.parsers import isar as isarp
    for rep in range(5):
        defs = tangled(r)
        patch = isar_patch(defs)
        base = None
        for perm in range(5):
            order = list(defs)
            if perm == 1:
                order.reverse()
            elif perm:
                r.shuffle(order)
            text = isar_text(order) if r.random() < 0.7 else grouped(r, order)
            kw = dict(isar=text, patch=patch)
            with Scratch() as s:
                out = s.mkdir('out')
                src = s.write('sch.xml', text)
                st, msg = run_main(['--isar', '--quiet', '-p', s.write('p', patch)] + out_args(out, ('python',)) + [src])
                if st != 'ok':
                    u.fail('definitions in any order compile', '%s %s' % (st, msg), **kw)
                    continue
                nodes, files = msg['sch'], s.read()
            if not ordered(u, defs, nodes, **kw):
                continue
            try:
                mod = load_package(files, ['sch'])['sch']
            except Exception as e:
                u.fail('the generated module imports', repr(e)[:300], **kw)
                continue
            lay = (layouts(nodes), dict((d.name, statics(mod, d)) for d in S.composites(defs)))
            if base is None:
                base = lay
                for t in S.composites(defs):
                    v = S.rand_value(r, t)
                    try:
                        b = py_bytes(mod, t, v, '<')
                    except Exception as e:
                        b = repr(e).encode()
                    if b != W.encode_bytes(t, v, '<'):
                        u.fail('types keep their layout', '%s encodes %r as %s, expected %s' % (t.name, v, b.hex(), W.encode_bytes(t, v, '<').hex()), **kw)
            elif lay != base:
                bad = [k for k in base[0] if base[0].get(k) != lay[0].get(k)] + [k for k in base[1] if base[1].get(k) != lay[1].get(k)]
                u.fail('every layout is identical across permutations', 'differs for %r' % bad[:3], **kw)
                continue
            u.ok(text)
        # the same definitions as model nodes, in arbitrary order across kinds
        for perm in range(5):
            parser = isarp.IsarParser()
            nodes = parser.parse(isar_text(defs), 'x', None)
            r.shuffle(nodes)
            names = [n.name for n in nodes]
            try:
                model.topological_sort(nodes)
            except Exception as e:
                u.fail('topological_sort orders acyclic definitions', repr(e)[:300], order=names, isar=isar_text(defs))
                continue
            ordered(u, defs, nodes, order=names, isar=isar_text(defs)) and u.ok(tuple(names))


def ordered(u, defs, nodes, **kw):
    from prophyc import model
    want = sorted(d.name for d in defs)
    got = [n.name for n in nodes if not isinstance(n, model.Include)]
    if sorted(got) != want:
        u.fail('every definition is listed exactly once', 'got %r' % got, **kw)
        return False
    owner = {}
    for d in defs:
        owner[d.name] = d.name
        if isinstance(d, Enum):
            for m in d.members:
                owner[m[0]] = d.name
    pos = dict((n, i) for i, n in enumerate(got))
    for d in defs:
        for x in depends(d):
            if x in owner and pos[owner[x]] >= pos[d.name]:
                u.fail('every definition comes after what it depends on', '%s precedes %s' % (d.name, owner[x]), **kw)
                return False
    return True


# ------------------------------------------------------------------ C16
def c16_unit(u, idx):
    r = core.rng('c16', idx)
    for rep in range(3):
        defs = tangled(r)
        owner = {}
        for d in defs:
            owner[d.name] = d
            if isinstance(d, Enum):
                for m in d.members:
                    owner[m[0]] = d
        nfiles = r.randint(2, 4)
        cuts = sorted(r.sample(range(1, len(defs)), min(nfiles - 1, len(defs) - 1)))
        groups = [defs[a:b] for a, b in zip([0] + cuts, cuts + [len(defs)])]
        fname = ['f%d' % i for i in range(len(groups))]
        home = {}
        for i, g in enumerate(groups):
            for d in g:
                home[d.name] = i
        layout = r.choice(['flat', 'sub', 'inc', 'cwd'])
        where = [('' if layout in ('flat', 'cwd') or i == len(groups) - 1 else r.choice(['', 'lib/'])) for i in range(len(groups))]
        texts, incs = {}, {}
        hollow = r.random() < 0.3
        for i, g in enumerate(groups):
            need = set()
            for d in g:
                for x in depends(d):
                    if x in owner and home[owner[x].name] != i:
                        need.add(home[owner[x].name])
            need = sorted(need)
            if r.random() < 0.3 and i:
                need = sorted(set(need) | set([r.randrange(i)]))
            incs[i] = need
            lines = []
            if hollow:
                lines.append('#include "%s"' % ('hollow.prophy' if layout == 'inc' else os.path.relpath('hollow.prophy', where[i] or '.')))
            for j in need:
                if layout == 'inc':
                    p = fname[j] + '.prophy'
                else:
                    p = os.path.relpath(where[j] + fname[j] + '.prophy', where[i] or '.')
                lines.append('#include "%s"' % p)
            texts[i] = '\n'.join(lines) + '\n' + S.prophy_text(g)
        kw = dict(files=dict((where[i] + fname[i] + '.prophy', texts[i]) for i in texts), layout=layout)
        whole = S.prophy_text(defs)
        one = P.load_python(P.compile_text(whole)['sch.py'])
        import prophyc.parsers.prophy as pp
        with Scratch() as s:
            out = s.mkdir('out')
            s.mkdir('src/lib')
            for i in texts:
                s.write('src/' + where[i] + fname[i] + '.prophy', texts[i])
            if hollow:
                s.write('src/hollow.prophy', r.choice(['', '// nothing here\n', '\n']))
            order = list(texts)
            if r.random() < 0.5:
                r.shuffle(order)
            args = ['--quiet'] + out_args(out)
            if layout == 'inc':
                args += ['-I', s.path('src/lib'), '-I', s.path('src')]
            paths = [s.path('src/' + where[i] + fname[i] + '.prophy') for i in order]
            if hollow:
                paths.append(s.path('src/hollow.prophy'))
            if layout == 'cwd':
                os.chdir(r.choice([s.path('src'), s.path('src/lib'), s.dir]))
                paths = [os.path.relpath(p) for p in paths]
            calls = []
            real = pp.ProphyParser.parse

            def counting(content, path, pf):
                calls.append(os.path.abspath(path))
                return real(content, path, pf)
            pp.ProphyParser.parse = staticmethod(counting)
            try:
                st, msg = run_main(args + paths)
            finally:
                pp.ProphyParser.parse = staticmethod(real)
            files = s.read()
        if st != 'ok':
            u.fail('a split schema compiles', '%s %s' % (st, msg), **kw)
            continue
        if len(calls) != len(set(calls)):
            u.fail('each file is processed once', '%r' % [c for c in calls if calls.count(c) > 1][:2], **kw)
            continue
        try:
            mods = load_package(files, fname + (['hollow'] if hollow else []))
        except Exception as e:
            u.fail('the generated modules import', repr(e)[:300], **kw)
            continue
        bad = False
        for d in defs:
            m = mods[fname[home[d.name]]]
            if isinstance(d, Const):
                if getattr(m, d.name, None) != getattr(one, d.name) or getattr(one, d.name) != d.value:
                    bad = u.fail('same constants', '%s: %r / %r' % (d.name, getattr(m, d.name, None), d.value), **kw) or True
            elif isinstance(d, Enum):
                if getattr(m, d.name)._name_to_int != getattr(one, d.name)._name_to_int:
                    bad = u.fail('same enumerators', d.name, **kw) or True
            elif isinstance(d, (Struct, Union)):
                if statics(m, d) != statics(one, d):
                    bad = u.fail('same layouts', '%s %r / %r' % (d.name, statics(m, d), statics(one, d)), **kw) or True
                    continue
                v = S.rand_value(r, d)
                for e in '<>':
                    try:
                        b = py_bytes(m, d, v, e)
                    except Exception as x:
                        b = repr(x).encode()
                    if b != W.encode_bytes(d, v, e):
                        bad = u.fail('same encodings', '%s %r: %s' % (d.name, v, b.hex()), **kw) or True
                        break
            if not bad:
                u.ok((d.name, whole))
        if rep == 0 and not bad:
            tu = '\n'.join('#include "%s.ppf.hpp"' % n for n in fname) + '\n' + '\n'.join(
                'static_assert(prophy::generated::%s::encoded_byte_size == %d, "%s");' % (d.name, W.size(d) if stiffness(d) == FIXED else -1, d.name) for d in S.composites(defs))
            tu2 = '\n'.join('#include "%s.pp.hpp"' % n for n in fname) + '\n' + '\n'.join('static_assert(sizeof(%s) == %d, "%s");' % (d.name, W.size(d), d.name) for d in S.composites(defs) if stiffness(d) == FIXED)
            err = cpp_syntax(files, [('a1.cpp', tu), ('a2.cpp', tu2)])
            if err:
                u.fail('the generated C++ of all files compiles together with the same layouts', err, **kw)
            else:
                u.ok(('cpp', whole))


def c16_errors(u, idx):
    r = core.rng('c16e', idx)
    cases = [({'a': '#include "nope.prophy"\nstruct A { u8 x; };'}, 'missing'), ({'a': '#include "a.prophy"\nstruct A { u8 x; };'}, 'self include'),
             ({'a': '#include "b.prophy"\nstruct A { u8 x; };', 'b': '#include "a.prophy"\nstruct B { u8 x; };'}, 'mutual include'),
             ({'a': '#include "b.prophy"\nstruct A { u8 x; };', 'b': '#include "c.prophy"\nstruct B { u8 x; };', 'c': '#include "b.prophy"\nstruct C { u8 x; };'}, 'deeper cycle'),
             ({'a': '#include "b.prophy"\nstruct A { u8 x; };', 'b': '#include "nope.prophy"\nstruct B { u8 x; };'}, 'nested missing'),
             ({'a': '#include "b.prophy"\n#include "c.prophy"\nstruct A { u8 x; };', 'b': 'struct B { u8 x; };', 'c': '#include "nope.prophy"\n'}, 'second include missing'),
             ({'a': '#include "d/b.prophy"\nstruct A { u8 x; };', 'd/b': '#include "a.prophy"\nstruct B { u8 x; };'}, 'parent directory is not searched')]
    for files, what in cases:
        with Scratch() as s:
            out = s.mkdir('out')
            for n, t in files.items():
                s.write(n + '.prophy', t + '\n')
            ins = ['a'] if r.random() < 0.6 else sorted(n for n in files if '/' not in n)
            st, msg = run_main(['--quiet'] + out_args(out, ('python',)) + [s.path(n + '.prophy') for n in ins])
            if st != 'diagnostic':
                u.fail('missing and cyclic includes are errors (%s)' % what, '%s %s' % (st, str(msg)[:200]), files=files, inputs=ins)
            else:
                u.ok((what, tuple(ins)))


def c16_leaves(u, idx):
    """Files of the same leaf name in different directories are different files: each is processed, once.
    (What is generated for them collides, a known finding, so outputs are not compared.)"""
    import prophyc.parsers.prophy as pp
    r = core.rng('c16l', idx)
    for rep in range(6):
        deep = r.random() < 0.5
        files = {'d1/x.prophy': 'struct A { u8 v; };\n',
                 'd2/x.prophy': ('#include "sub/x.prophy"\n' if deep else '') + 'struct B { u16 v; };\n',
                 'main.prophy': '#include "d1/x.prophy"\n#include "d2/x.prophy"\nstruct M { A a[%d]; B b; };\n' % r.randint(1, 9)}
        if deep:
            files['d2/sub/x.prophy'] = 'struct D { u8 v[3]; };\n'
        calls = []
        real = pp.ProphyParser.parse
        with Scratch() as s:
            out = s.mkdir('out')
            for k, t in files.items():
                s.write('src/' + k, t)

            def counting(content, path, pf):
                calls.append(os.path.relpath(os.path.abspath(path), s.path('src')))
                return real(content, path, pf)
            pp.ProphyParser.parse = staticmethod(counting)
            try:
                st, res = run_main(['--quiet'] + out_args(out, ('python',)) + [s.path('src/main.prophy')])
            finally:
                pp.ProphyParser.parse = staticmethod(real)
        if st not in ('ok', 'diagnostic') or sorted(calls) != sorted(files):
            u.fail('each file is processed once', '%s: processed %r' % (st, sorted(calls)), files=files)
        else:
            u.ok(('leaf', tuple(files.values())))


# ------------------------------------------------------------------ C17
def c17_unit(u, idx):
    r = core.rng('c17', idx)
    for rep in range(4):
        defs = tangled(r)
        xml, patch = disguise(r, defs)
        text = S.prophy_text(defs)
        kw = dict(schema=text, isar=xml, patch=patch)
        with Scratch() as s:
            out = s.mkdir('out')
            st, msg = run_main(['--isar', '--quiet', '-p', s.write('p', patch)] + out_args(out, ('python',)) + [s.write('sch.xml', xml)])
            if st != 'ok':
                u.fail('isar with its patch compiles', '%s %s' % (st, msg), **kw)
                continue
            inodes, ifiles = msg['sch'], s.read()
        with Scratch() as s:
            out = s.mkdir('out')
            st, msg = run_main(['--quiet'] + out_args(out, ('python',)) + [s.write('sch.prophy', text)])
            if st != 'ok':
                u.fail('the prophy text compiles', '%s %s' % (st, msg), **kw)
                continue
            pnodes, pfiles = msg['sch'], s.read()
        a, b = layouts(inodes), layouts(pnodes)
        diff = [k for k in b if a.get(k) != b[k]]
        if diff:
            u.fail('both front ends give the same layout', '%s: isar %r, prophy %r' % (diff[0], a.get(diff[0]), b[diff[0]]), **kw)
            continue
        try:
            im, pm = load_package(ifiles, ['sch'])['sch'], load_package(pfiles, ['sch'])['sch']
        except Exception as e:
            u.fail('both modules import', repr(e)[:300], **kw)
            continue
        for t in S.composites(defs):
            v = S.rand_value(r, t)
            for e in '<>':
                try:
                    x, y = py_bytes(im, t, v, e), py_bytes(pm, t, v, e)
                except Exception as ex:
                    u.fail('codecs from both front ends accept equal values', '%s %r: %r' % (t.name, v, ex), **kw)
                    break
                if x != y:
                    u.fail('codecs from both front ends give equal bytes', '%s %r: %s / %s' % (t.name, v, x.hex(), y.hex()), **kw)
                    break
            else:
                u.ok((t.name, xml))


def disguise(r, defs):
    """isar XML that differs from defs, and the patch that turns it into defs."""
    patch, out = [], []
    for d in defs:
        if isinstance(d, Struct):
            lines, rules = [], []
            post = []
            name = d.name
            renamed = False
            ms = list(d.members)
            for i, m in enumerate(ms):
                k = r.random()
                mm, nm = m, m.name
                if m.form == GREEDY_ARR:
                    w = r.choice([FIXED_ARR, PLAIN, OPTIONAL])
                    mm = rebuild(m, form=w, size=2, size_text='2')
                    decoys(r, rules, nm, ms[:i])
                    rules.append('greedy %s' % nm)
                elif m.form == EXT_ARR and k < 0.6:
                    mm = rebuild(m, form=r.choice([FIXED_ARR, PLAIN, OPTIONAL]), size=3, size_text='3')
                    decoys(r, rules, nm, ms[:i])
                    rules.append('dynamic %s %s' % (nm, m.bound))
                elif m.form == FIXED_ARR and k < 0.4 and re.match(r'^\w+$', str(m.size_text)):
                    mm = rebuild(m, form=r.choice([PLAIN, FIXED_ARR, OPTIONAL]), size=5, size_text='5')
                    decoys(r, rules, nm, ms[:i])
                    rules.append('static %s %s' % (nm, m.size_text))
                elif m.form == LIM_ARR and k < 0.6:
                    lines.append('<member name="num_of_%s" type="u32"/>' % nm)
                    mm = rebuild(m, form=FIXED_ARR)
                    if r.random() < 0.5 and re.match(r'^\w+$', str(m.size_text)):
                        decoys(r, rules, nm, ms[:i])
                        rules.append('static %s %s' % (nm, m.size_text))
                    rules.append('limited %s num_of_%s' % (nm, nm))
                elif m.form == PLAIN and k < 0.25 and not isinstance(m.type, (Struct, Union, Enum, Typedef)):
                    mm = rebuild(m, type=W.SCALARS['u8' if m.type.name != 'u8' else 'u64'])
                    rules.append('type %s %s' % (nm, m.type.name))
                elif m.form == PLAIN and k < 0.35 and len(ms) > 1 and all(x.form not in (DYN_ARR, LIM_ARR) for x in ms):
                    post.append('insert %d %s %s' % (i, nm, m.type.name))
                    continue
                if k > 0.85 and not any(x.bound == nm for x in ms) and m.form in (PLAIN, FIXED_ARR, OPTIONAL) and not rules_for(rules, nm):
                    mm = rebuild(mm, name='old_' + nm)
                    rules.append('rename old_%s %s' % (nm, nm))
                lines.append(isar_member(mm))
                if r.random() < 0.08 and not post and all(x.form not in (DYN_ARR, LIM_ARR, GREEDY_ARR) for x in ms):
                    lines.append('<member name="junk%d" type="u16"/>' % i)
                    rules.append('remove junk%d' % i)
            if not lines:
                lines = ['<member name="junk" type="u8"/>']
                post.append('remove junk')
            if r.random() < 0.15:
                name = 'Old' + d.name
                renamed = True
            for x in rules + post:
                patch.append('%s %s' % (name, x))
            if renamed:
                patch.append('%s rename %s' % (name, d.name))
            simple = all(m.form == PLAIN for m in ms) and not rules and not post and not renamed
            if simple and r.random() < 0.5 and len(ms) and all(stiffness(m.type) == FIXED for m in ms):
                out.append('<union name="%s">%s</union>' % (d.name, ''.join('<member discriminatorValue="%d" name="%s" type="%s"/>' % (i, m.name, m.type.name) for i, m in enumerate(ms))))
                patch.append('%s struct' % d.name)
            else:
                out.append('<struct name="%s">%s</struct>' % (name, ''.join(lines)))
        elif isinstance(d, Union) and r.random() < 0.2:
            a = d.arms[0]
            out.append(isar_def(rebuild(d, arms=[rebuild(a, name='old_' + a.name)] + d.arms[1:])))
            patch.append('%s rename old_%s %s' % (d.name, a.name, a.name))
        else:
            out.append(isar_def(d))
    if r.random() < 0.5:
        patch.append('AbsentMessage %s' % r.choice(['remove x', 'type a b', 'greedy x', 'nonsense', 'struct', 'insert x y z']))
    if r.random() < 0.5:
        r.shuffle(out)
    head = []
    for p in patch:
        head.append(p)
        if r.random() < 0.1:
            head.append('')
    return '<xml>%s</xml>' % '\n'.join(out), '\n'.join(head) + '\n'


def decoys(r, rules, nm, before):
    """Array rules which a later rule for the same field overrides."""
    for _ in range(r.choice([0, 0, 1, 2])):
        w = r.choice(['greedy', 'static', 'dynamic'])
        rules.append({'greedy': 'greedy %s' % nm, 'static': 'static %s 7' % nm, 'dynamic': 'dynamic %s %s' % (nm, before[-1].name if before else 'any')}[w])


def rules_for(rules, nm):
    return any(nm in x.split() for x in rules)


def c17_idioms(u, idx):
    """The ways isar spells arrays, optional arrays, counters and values, next to what they mean in prophy text."""
    r = core.rng('c17d', idx)
    prims = sorted(ISAR_PRIM)
    ints = [p for p in prims if p[0] != 'r']
    spell = {'r32': 'float', 'r64': 'double'}
    for rep in range(12):
        xml, text = [], []
        k, e = r.randint(1, 5), r.randint(0, 3)
        xml.append('<constant name="K" value="%s"/>' % r.choice([str(k), '(%d)' % k, 'shiftLeft(%d, 0)' % k, 'bitMaskOr(%d, 0)' % k, 'shiftLeft(1, bitMaskOr(1, 0)) + %d' % (k - 2)]))
        text.append('const K = %d;' % k)
        xml.append('<constant name="L" value="shiftLeft(K, %d)"/>' % e)
        text.append('const L = %d;' % (k << e))
        xml.append('<enum name="E"><enum-member name="E_A" value="%s"/><enum-member name="E_B" value="-1"/><enum-member name="E_C" value="shiftLeft(1, 31)"/></enum>' % r.choice(['7', '0x7', 'K * 0 + 7']))
        text.append('enum E { E_A = 7, E_B = 0xFFFFFFFF, E_C = 0x80000000 };')
        tags = ['struct', 'struct', 'message']
        for i in range(4):
            tag = r.choice(tags)
            xs, ts = [], []
            for j in range(r.randint(1, 5)):
                n, t = 'f%d' % j, r.choice(prims + ['E'])
                pt = spell.get(t, t)
                st = r.choice(ints)
                size = r.choice([('3', '3'), ('K', 'K'), ('L', 'L'), ('K + 1', 'K + 1'), ('K*L', 'K * L')])
                way = r.randrange(14)
                mem = '<member name="%s" type="%s"%%s><dimension %%s/></member>' % (n, t)
                if way == 0:
                    xs.append('<member name="%s" type="%s"/>' % (n, t))
                    ts.append('%s %s;' % (pt, n))
                elif way == 1:
                    xs.append('<member name="%s" type="%s" optional="%s"/>' % (n, t, r.choice(['true', 'True', 'TRUE'])))
                    ts.append('%s* %s;' % (pt, n))
                elif way == 2:
                    xs.append(mem % (' optional="false"', 'size="%s"' % size[0]))
                    ts.append('%s %s[%s];' % (pt, n, size[1]))
                elif way == 3:
                    s2 = r.choice(['2', 'K', '4'])
                    s1 = r.choice(['3', 'K', 'L'])
                    xs.append(mem % ('', 'size="%s" size2="%s"' % (s1, s2)))
                    ts.append('%s %s[%s * %s];' % (pt, n, s1, s2))
                elif way == 4:
                    xs.append(mem % ('', 'isVariableSize="true"'))
                    ts.append('u32 %s_len; %s %s<@%s_len>;' % (n, pt, n, n))
                elif way == 5:
                    xs.append(mem % ('', 'isVariableSize="true" variableSizeFieldType="%s"' % st))
                    ts.append('%s %s_len; %s %s<@%s_len>;' % (st, n, pt, n, n))
                elif way == 6:
                    xs.append(mem % ('', 'isVariableSize="true" variableSizeFieldType="%s" variableSizeFieldName="c%d"' % (st, j)))
                    ts.append('%s c%d; %s %s<@c%d>;' % (st, j, pt, n, j))
                elif way == 7:
                    xs.append(mem % ('', 'isVariableSize="true" size="%s" variableSizeFieldName="num_of_%s"' % (size[0], n)))
                    if tag == 'message':
                        ts.append('%s %s<>;' % (pt, n))
                    else:
                        ts.append('%s %s<%s>;' % (pt, n, size[1]))
                elif way == 8:
                    xs.append('<member name="numOfF%d" type="%s"/>' % (j, st) + mem % ('', 'size="THIS_IS_VARIABLE_SIZE_ARRAY"'))
                    ts.append('%s numOfF%d; %s %s<@numOfF%d>;' % (st, j, pt, n, j))
                elif way == 9:
                    xs.append('<member name="z%d" type="%s"/>' % (j, st) + mem % ('', 'size="%s" variableSizeFieldName="@z%d"' % (size[0], j)))
                    ts.append('%s z%d; %s %s<@z%d>;' % (st, j, pt, n, j))
                elif way == 11:
                    xs.append(mem % (' optional="true"', 'isVariableSize="true"'))
                    ts.append('u32 has_%s; u32 %s_len; %s %s<@%s_len>;' % (n, n, pt, n, n))
                elif way == 12:
                    xs.append('<member name="z%d" type="%s"/>' % (j, st) + mem % (' optional="true"', 'variableSizeFieldName="@z%d"' % j))
                    ts.append('%s z%d; u32 has_%s; %s %s<@z%d>;' % (st, j, n, pt, n, j))
                elif way == 13:
                    s1, s2 = r.choice(['3', 'K', 'L']), r.choice(['2', 'K'])
                    xs.append(mem % ('', 'isVariableSize="true" size="%s" size2="%s" variableSizeFieldName="num_of_%s"' % (s1, s2, n)))
                    ts.append('%s %s<%s>;' % (pt, n, '' if tag == 'message' else '%s * %s' % (s1, s2)))
                else:
                    xs.append(mem % (' optional="true"', 'size="%s"' % size[0]))
                    ts.append('u32 has_%s; %s %s[%s];' % (n, pt, n, size[1]))
            xml.append('<%s name="S%d">%s</%s>' % (tag, i, ''.join(xs), tag))
            text.append('struct S%d { %s };' % (i, ' '.join(ts)))
        if r.random() < 0.5:
            r.shuffle(xml)
        xml, text = '<xml>%s</xml>' % '\n'.join(xml), '\n'.join(text)
        kw = dict(schema=text, isar=xml)
        got = {}
        for front, name, body, opts in (('isar', 'sch.xml', xml, ['--isar']), ('prophy', 'sch.prophy', text, [])):
            with Scratch() as s:
                out = s.mkdir('out')
                st, msg = run_main(opts + ['--quiet'] + out_args(out, ('python',)) + [s.write(name, body)])
                if st != 'ok':
                    u.fail('the %s description compiles' % front, '%s %s' % (st, msg), **kw)
                    break
                nodes, files = msg['sch'], s.read()
            try:
                mod = load_package(files, ['sch'])['sch']
            except Exception as ex:
                u.fail('the module generated from %s imports' % front, repr(ex)[:300], **kw)
                break
            values = [(x.name, x.number) for x in map(mod.E, (mod.E_A, mod.E_B, mod.E_C))] + [mod.K, mod.L]
            got[front] = layouts(nodes), values, [getattr(mod, 'S%d' % i)().encode('<') for i in range(4)]
        else:
            if got['isar'] != got['prophy']:
                d = [(a, b) for a, b in zip(got['isar'], got['prophy']) if a != b][0]
                u.fail('both front ends mean the same', 'isar %r, prophy %r' % d, **kw)
            else:
                u.ok(xml)


def c17_bad(u, idx):
    """A rule that cannot be applied fails the compilation; an absent message is ignored."""
    xml, bad, good = PATCH_XML, PATCH_BAD, PATCH_GOOD
    with Scratch() as s:
        out = s.mkdir('out')
        src = s.write('sch.xml', xml)
        for p in bad + good:
            st, msg = run_main(['--isar', '--quiet', '-p', s.write('p', p + '\n')] + out_args(out, ('python',)) + [src])
            if p in bad and st != 'diagnostic':
                u.fail('a rule that cannot be applied fails the compilation', '%r: %s %s' % (p, st, str(msg)[:200]), isar=xml, patch=p)
            elif p in good and st != 'ok':
                u.fail('an applicable or absent-message rule compiles', '%r: %s %s' % (p, st, str(msg)[:200]), isar=xml, patch=p)
            else:
                u.ok(p)


# ------------------------------------------------------------------ C20
def c20_unit(u, idx):
    r = core.rng('c20', idx)
    isar = idx % 2 == 1
    with Scratch() as s:
        n = r.randint(2, 4)
        texts = {}
        names = r.sample(['alpha', 'beta', 'gamma', 'delta', 'omega', 'zeta', 'b', 'a'], n)
        shared = tangled(r, 'Sh')
        ext = '.xml' if isar else '.prophy'
        inc = ('<include href="common.xml"/>' if isar else '#include "common.prophy"\n')
        texts['common'] = isar_text(shared) if isar else S.prophy_text(shared)
        pre = r.random() < 0.6
        patch = isar_patch(shared)
        for k, nm in enumerate(names):
            defs = tangled(r, 'N%d' % k)
            if isar:
                patch += isar_patch(defs)
            use = [d for d in shared if isinstance(d, (Struct, Union)) and stiffness(d) == FIXED]
            own = list(defs)
            if pre and use:
                own.append(Struct('N%dUse' % k, [Member('u', r.choice(use)), Member('w', r.choice(use), LIM_ARR, 2)]))
            if isar:
                if r.random() < 0.8:
                    r.shuffle(own)
                texts[nm] = '<xml>%s%s</xml>' % (inc if pre else '', '\n'.join(isar_def(d) for d in own))
            else:
                texts[nm] = (inc if pre else '') + S.prophy_text(own)
        for nm, t in texts.items():
            s.write('src/' + nm + ext, t)
        s.write('p.txt', patch)
        outs = ('python', 'cpp', 'cpp_full') + (('prophy',) if False else ())
        base = None
        runs = [('first', '0', s.dir, names, False), ('again', '0', s.dir, names, False), ('hash seed', str(r.randint(1, 10 ** 6)), s.dir, names, False), ('hash seed random', 'random', s.dir, names, False), ('third hash seed', str(r.randint(1, 10 ** 6)), s.dir, names, False), ('working directory', '1', s.path('src'), names, True),
                ('order', '0', s.dir, list(reversed(names)), False), ('shuffled', str(r.randint(1, 999)), '/', r.sample(names, n), False)]
        for label, hs, cwd, order, rel in runs:
            od = s.mkdir('o_' + re.sub(r'\W', '_', label))
            paths = [s.path('src/' + x + ext) for x in order]
            if rel:
                paths = [os.path.relpath(p, cwd) for p in paths]
            args = [sys.executable, '-c', 'import sys; sys.path[:0] = [%r]; sys.path.append("/opt/venv/lib/python3.12/site-packages"); sys.dont_write_bytecode = True\nimport prophyc; prophyc.main(sys.argv[1:])' % os.environ.get('PROPHY_REPO', '/repo'), '--quiet'] + (['--isar', '-p', s.path('p.txt')] if isar else []) + out_args(od, outs) + paths
            p = subprocess.run(args, cwd=cwd, env=dict(os.environ, PYTHONHASHSEED=hs), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
            got = s.read(os.path.basename(od))
            if base is None:
                base = (p.returncode, got)
                if p.returncode:
                    return u.fail('independent inputs compile', p.stdout[-400:], files=texts)
            elif (p.returncode, got) != base:
                bad = [f for f in set(base[1]) | set(got) if base[1].get(f) != got.get(f)]
                u.fail('outputs depend only on inputs and options (%s)' % label, 'differs: %s (exit %d) %s' % (sorted(bad)[:3], p.returncode, p.stdout[-200:]), files=texts, order=order, hash_seed=hs)
            else:
                u.ok((label, repr(sorted(got))))
        # one file alone gives what it gives among others
        x = r.choice(names)
        od = s.mkdir('o_alone')
        st, msg = run_main(['--quiet'] + (['--isar', '-p', s.path('p.txt')] if isar else []) + out_args(od, outs) + [s.path('src/' + x + ext)])
        got = s.read('o_alone')
        bad = [f for f in got if got[f] != base[1].get(f)]
        if st != 'ok' or bad:
            u.fail('compiling one file never changes what is generated for another', '%s %r' % (st, bad), files=texts, alone=x)
        else:
            u.ok(('alone', x))
        # and several compilations in one process do not disturb each other
        for y in names[:2]:
            od = s.mkdir('o_seq_' + y)
            st, msg = run_main(['--quiet'] + (['--isar', '-p', s.path('p.txt')] if isar else []) + out_args(od, outs) + [s.path('src/' + y + ext)])
            got = s.read('o_seq_' + y)
            bad = [f for f in got if got[f] != base[1].get(f)]
            if st != 'ok' or bad:
                u.fail('repeated runs give the same output', '%s %r' % (st, bad), files=texts, alone=y)
            else:
                u.ok(('seq', y))


def c20_alone(u, idx):
    """What one input defines is never seen by another which does not include it."""
    r = core.rng('c20a', idx)
    for rep in range(4):
        k, v = 'K%d_%d_%d' % (idx, rep, r.randint(0, 999)), r.randint(1, 9)
        use = r.choice(['%s', '%s+1', '2*%s', '(%s+2)*2']) % k
        shape = r.choice(['size', 'const', 'enum', 'disc', 'type'])
        b = {'size': '<struct name="S"><member name="m" type="u32"><dimension size="%s"/></member></struct>' % use,
             'const': '<constant name="C" value="%s"/><struct name="S"><member name="m" type="u8"/></struct>' % use,
             'enum': '<enum name="E"><enum-member name="E_1" value="%s"/></enum><struct name="S"><member name="m" type="E"/></struct>' % use,
             'disc': '<union name="U"><member discriminatorValue="%s" name="a" type="u8"/></union>' % use,
             'type': '<struct name="S"><member name="m" type="T%s"/></struct>' % k}[shape]
        a = r.choice(['<constant name="%s" value="%d"/>' % (k, v), '<enum name="X%s"><enum-member name="%s" value="%d"/></enum>' % (k, k, v)])
        a += '<typedef name="T%s" type="u16"/>' % k
        if r.random() < 0.7:
            a += '<struct name="Q%s"><member name="m" type="u8"><dimension size="%s*2"/></member></struct>' % (k, k)
        c = '<struct name="Z"><member name="m" type="u64"/></struct>'
        texts = {'a': '<x>%s</x>' % a, 'b': '<x>%s</x>' % b, 'c': '<x>%s</x>' % c}
        with Scratch() as s:
            for n, t in texts.items():
                s.write('src/%s.xml' % n, t)
            base = None
            for order in ('b', 'ab', 'ba', 'cb', 'acb', 'b'):
                od = s.mkdir('o')
                st, msg = run_main(['--quiet', '--isar'] + out_args(od, ('python',)) + [s.path('src/%s.xml' % n) for n in order])
                got = (st, s.read('o').get('b.py'))
                shutil.rmtree(od)
                if base is None:
                    base = got
                elif got != base:
                    u.fail('compiling one file never changes what is generated for another', 'b.xml alone and in order %s differ' % order, files=texts, order=order)
                    break
            else:
                u.ok((shape, use))


def c20_same_names(u, idx):
    """Inputs which do not include each other may define the same names."""
    r = core.rng('c20n', idx)
    for rep in range(3):
        def text(i):
            v = r.randint(1, 9)
            e = r.sample(range(20), 2)
            t = r.choice(['u8', 'u16', 'u32', 'u64', 'i8'])
            defs = ['const K = %d;' % v, 'typedef %s T;' % t, 'enum E { E_A = %d, E_B = %d };' % tuple(e),
                    'struct S { T a[K]; E b; u8 c%d<>; };' % i, 'union U { E_A: T a; E_B: u64 b%d; };' % i]
            if r.random() < 0.3:
                defs = ['typedef u32 K;', 'const T = %d;' % v, 'struct E { K a[T]; };', 'struct S { E e; u8 x<T>; };', 'struct U { S s; };']
            return '\n'.join(defs[:r.choice([3, 5, 5])])
        texts = {'a': text(1), 'b': text(2), 'c': '#include "a.prophy"\nstruct Z { E e; };'}
        outs, base = ('python', 'cpp', 'cpp_full'), None
        with Scratch() as s:
            for n, t in texts.items():
                s.write('src/%s.prophy' % n, t)
            for order in ('b', 'ab', 'ba', 'cb', 'acb', 'bca', 'b'):
                od = s.mkdir('o')
                st, msg = run_main(['--quiet'] + out_args(od, outs) + [s.path('src/%s.prophy' % n) for n in order])
                got = (st, msg if st != 'ok' else '', {n: t for n, t in s.read('o').items() if n.startswith('b.')})
                shutil.rmtree(od)
                if base is None:
                    base = got
                    if st != 'ok':
                        u.fail('independent inputs compile', '%s %s' % (st, msg), files=texts, order=order)
                        break
                elif got != base:
                    u.fail('compiling one file never changes what is generated for another', 'b.prophy alone and in order %s differ: %s %s' % (order, st, got[1]), files=texts, order=order)
                    break
            else:
                u.ok(texts['a'] + texts['b'])


def work(prop):
    if prop == 'c12':
        for i in range(12):
            yield c12_break, (i,)
            yield c12_accept, (i,)
            yield c12_mutants, (i,)
    elif prop == 'c13':
        for i in range(24):
            yield c13_text, (i,)
            yield c13_isar, (i,)
            if i < 6:
                yield c13_files, (i,)
    elif prop == 'c14':
        for i in range(60):
            yield c14_unit, (i,)
    elif prop == 'c15':
        for i in range(48):
            yield c15_unit, (i,)
    elif prop == 'c16':
        for i in range(48):
            yield c16_unit, (i,)
            if i < 3:
                yield c16_errors, (i,)
                yield c16_leaves, (i,)
    elif prop == 'c17':
        yield c17_bad, (0,)
        for i in range(120):
            yield c17_unit, (i,)
            if i < 30:
                yield c17_idioms, (i,)
    elif prop == 'c20':
        for i in range(6):
            yield c20_alone, (i,)
            yield c20_same_names, (i,)
        for i in range(40):
            yield c20_unit, (i,)
