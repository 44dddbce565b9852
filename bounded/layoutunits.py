"""Bounded contract evaluation of computed layouts (C04) and raw C++ (C08, C09)."""
import os
import re
import shutil
import subprocess
import tempfile
from vf import core
from spec import schema as S
from spec import wire as W
from bounded import gen, pycodec as P, rawcodec, pyunits


def schema(kind, idx, r, multi_ext=False, npairs=240):
    if kind == 'triples':
        defs, out = gen.triple_structs('T', r, 80)
        return defs + out, out + S.composites(defs)
    if kind.startswith('contract '):
        from contracts import raw as R
        defs, out = R.schemas(kind[9:])
        return defs + out, out
    if kind == 'pairs':
        part, parts = idx
        defs, out = gen.pair_structs('P', part, parts)
        return defs + out, out
    alld = []
    for k in range(10):
        alld += S.rand_schema(r, S.Opts(multi_ext=multi_ext, max_members=r.choice([3, 5, 8]), n_structs=r.choice([2, 4, 6])), 'X%d' % k)
    return alld, S.composites(alld)


def compile_nodes(text, outs):
    """Real prophyc.main: returns (model nodes, {file: text})."""
    import prophyc
    d = tempfile.mkdtemp(prefix='vflay')
    try:
        src = os.path.join(d, 'sch.prophy')
        with open(src, 'w') as f:
            f.write(text)
        args = ['--quiet']
        for o in outs:
            args += ['--%s_out' % o, d]
        nodes = prophyc.main(args + [src])['sch']
        files = {}
        for fn in os.listdir(d):
            if fn != 'sch.prophy':
                with open(os.path.join(d, fn)) as f:
                    files[fn] = f.read()
        return nodes, files
    finally:
        shutil.rmtree(d)


def c04(u, kind, idx):
    r = core.rng('c04', kind, idx)
    defs, types = schema(kind, idx, r)
    text = S.prophy_text(defs)
    try:
        nodes, files = compile_nodes(text, ('python', 'cpp', 'cpp_full'))
        mod = P.load_python(files['sch.py'])
    except Exception as e:
        return u.fail('prophyc compiles the schema', repr(e)[:500], schema=text)
    byname = dict((n.name, n) for n in nodes)
    asserts = []
    for t in types:
        al, st = W.alignment(t), W.stiffness(t)
        sz = W.size(t)

        def rec(clause, got, want):
            u.fail(clause, 'got %r, layout rules give %r' % (got, want), schema=gen.schema_for(defs, t), type=t.name)
        n = byname.get(t.name)
        if n is None:
            rec('every type has a model node', None, t.name)
            continue
        if n.alignment != al:
            rec('model alignment', n.alignment, al)
        elif n.kind != st:
            rec('model stiffness', n.kind, st)
        elif n.byte_size != sz:
            rec('model byte size', n.byte_size, sz)
        else:
            u.ok(('model', text))
        if isinstance(t, W.Struct) and st == W.FIXED:
            off = 0
            for m, f, o in zip(n.members, W.lower(t), W.layout(t).offsets):
                if off != o:
                    rec('members start where model sizes and paddings put them (%s)' % m.name, off, o)
                    break
                off += m.byte_size + (m.padding or 0)
            else:
                if off != sz:
                    rec('model sizes and paddings add up', off, sz)
        if isinstance(t, W.Struct) and st != W.FIXED:
            for k in range(4):
                v = S.rand_value(r, t, maxlen=r.choice([0, 1, 3, 5]))
                spans, end = W.member_spans(t, v)
                for i, m in enumerate(n.members):
                    nxt = spans[i + 1][0] if i + 1 < len(spans) else end
                    p = m.padding or 0
                    put = spans[i][1] + p if p >= 0 else W.roundup(spans[i][1], -p)
                    if put != nxt:
                        u.fail('the padding after a member leads to the next one (%s)' % m.name,
                               'padding %r takes offset %d to %d, wire rules to %d' % (m.padding, spans[i][1], put, nxt),
                               schema=gen.schema_for(defs, t), type=t.name, value=repr(v))
                        break
                else:
                    u.ok(('padding', t.name, end, idx))
        c = getattr(mod, t.name)
        got = (c._ALIGNMENT, bool(c._DYNAMIC or c._UNLIMITED), bool(c._UNLIMITED))
        want = (al, st != W.FIXED, st == W.UNLIMITED)
        if got != want:
            rec('Python statics (alignment, dynamic, unlimited)', got, want)
        elif st == W.FIXED and c._SIZE != sz:
            rec('Python static size', c._SIZE, sz)
        else:
            u.ok(('python', t.name, idx))
        if st == W.FIXED:
            for k in range(2):
                v = S.rand_value(r, t)
                try:
                    b = pyunits.make(mod, t, v).encode(r.choice('<>'))
                except Exception as e:
                    rec('encodes', repr(e), sz)
                    continue
                if len(b) != sz:
                    rec('every encoding of a fixed type has the computed length', len(b), sz)
        asserts.append((t, 'int(prophy::generated::%s::encoded_byte_size) == %d' % (t.name, sz if st == W.FIXED else -1), 'encoded_byte_size'))
        if st == W.FIXED:
            asserts.append((t, 'sizeof(raw::%s) == %d' % (t.name, sz), 'raw struct size'))
    d = tempfile.mkdtemp(prefix='vfc04')
    try:
        for fn, src in files.items():
            with open(os.path.join(d, fn), 'w') as f:
                f.write(src)
        with open(os.path.join(d, 'a.cpp'), 'w') as f:
            f.write('#include "sch.ppf.hpp"\n')
            for t, a, what in asserts:
                if what == 'encoded_byte_size':
                    f.write('static_assert(%s, "FAILED %s %s");\n' % (a, t.name, what))
        with open(os.path.join(d, 'b.cpp'), 'w') as f:
            f.write('#include "sch.pp.hpp"\n')
            for t, a, what in asserts:
                if what != 'encoded_byte_size':
                    f.write('static_assert(%s, "FAILED %s %s");\n' % (a.replace('raw::', '::'), t.name, what))
        for fn in ('a.cpp', 'b.cpp'):
            p = subprocess.run(['clang++', '-std=c++11', '-fsyntax-only', '-w', '-ferror-limit=0', '-I' + rawcodec.INC, '-I' + d, os.path.join(d, fn)],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
            bad = set(re.findall(r'error:.*FAILED (\w+) ([^"\n]*)', p.stdout))
            for name, what in bad:
                t = [x for x in types if x.name == name][0]
                u.fail('C++ %s equals the computed size' % what.strip('"'), 'static assertion fails', schema=gen.schema_for(defs, t), type=name, size=W.size(t))
            if p.returncode and not bad:
                u.fail('generated C++ compiles', p.stdout[:500], schema=text)
            if not bad:
                u.evals += len(asserts)
    finally:
        shutil.rmtree(d)


def raw(u, prop, kind, idx):
    r = core.rng('raw', prop, kind, idx)
    defs, types = schema(kind, idx, r, multi_ext=True)
    text = S.prophy_text(defs)
    try:
        outs = P.compile_text(text, ('cpp',))
    except Exception as e:
        return u.fail('prophyc compiles the schema', repr(e)[:500], schema=text)
    b = rawcodec.Raw(defs, outs, san=('-fsanitize=address',) if prop == 'c09' else ())
    try:
        if not b.compile():
            return u.fail('generated raw C++ compiles', b.log[:600], schema=text)
        cmds, meta = [], []
        for t in types:
            if prop == 'c08':
                cmds.append(('o', t.name))
                meta.append((t,))
            else:
                if rawcodec.narrowing_parts(t):
                    continue
                for k in range(40 if kind.startswith('contract ') else 5):
                    v = S.rand_value(r, t, maxlen=3 if k else r.choice([0, 7]))
                    e = rawcodec.swap_expectation(t, v)
                    cmds.append(('s', t.name, e[0]))
                    meta.append((t, v) + e)
        for m, x in zip(meta, b.run(cmds)):
            t = m[0]

            def rec(clause, what, **kw):
                u.fail(clause, what, **dict(dict(schema=gen.schema_for(defs, t), type=t.name), **kw))
            if x is None:
                rec('the driver survives', 'crashed at or before this input', value=repr(m[1:]))
                break
            if prop == 'c08':
                want = rawcodec.expected_offsets(t)
                bad = [(k, x[1][k], want[k]) for k in want if x[1].get(k) != want[k]]
                if bad:
                    rec('members lie at their wire offsets', 'member %s at %d, wire offset %d' % bad[0])
                elif W.stiffness(t) == W.FIXED and x[0] != W.size(t):
                    rec('sizeof equals the wire size', '%d / %d' % (x[0], W.size(t)))
                else:
                    u.ok((t.name, text))
            else:
                _, v, big, n, lit, ret = m
                kw = dict(value=repr(v), foreign=big.hex(), native=lit.hex(), got=x[2].hex())
                if x[1] != b'\xa5' * 32 or x[3] != b'\xa5' * 32:
                    rec('no byte outside the message changes', 'guard bytes changed', **kw)
                elif x[2][:n] != lit[:n]:
                    rec('swap rewrites the message to native order', pyunits.diff(x[2][:n], lit[:n]), **kw)
                elif x[0] != ret:
                    rec('swap returns the end of the message', '%d expected %d' % (x[0], ret), **kw)
                else:
                    u.ok((t.name, lit))
    finally:
        b.close()


def work04(parts=48, pairs=16, triples=12, rand=24):
    for i in range(max(pairs, triples, rand)):
        if i < pairs:
            yield c04, ('pairs', (core.rng('c04', i).randrange(parts), parts))
        if i < triples:
            yield c04, ('triples', i)
        if i < rand:
            yield c04, ('rand', i)


def workraw(prop, parts=100, pairs=24, triples=24, rand=32):
    for i in range(max(pairs, triples, rand)):
        if i < pairs:
            yield raw, (prop, 'pairs', (core.rng(prop, i).randrange(parts), parts))
        if i < triples:
            yield raw, (prop, 'triples', i)
        if i < rand:
            yield raw, (prop, 'rand', i)


def contracts(prop, refuted):
    """Values of the very types whose obligations were refuted."""
    from contracts import cpp, raw as R
    for g in list(R.STRUCTS) + list(R.UNIONS):
        names = [cpp.describe(t) for t in R.schemas(g)[1]] if refuted else []
        if any(n in o.name for n in names for o in refuted):
            yield raw, (prop, 'contract ' + g, 0)
