"""Bounded contract evaluation of generated C++ full codecs (C03, C05, C07, C18, C19)."""
import re
from vf import core
from spec import schema as S
from spec import wire as W
from bounded import gen, pycodec as P, cppcodec, pyunits


def schema(kind, idx, r):
    if kind == 'triples':
        defs, out = gen.triple_structs('T', r, 22)
        return defs + out, out + (S.composites(defs) if idx == 0 else [])
    if kind.startswith('contract '):
        from contracts import cpp
        defs, out = cpp.schemas(kind[9:])
        return defs + out, out
    if kind == 'pairs':
        defs, out = gen.pair_structs('P', r.randrange(600), 600)
        return defs + out, out
    alld = []
    for k in range(6):
        alld += S.rand_schema(r, S.Opts(multi_ext=False, max_members=r.choice([3, 5, 8]), n_structs=r.choice([2, 4])), 'X%d' % k)
    return alld, S.composites(alld)


def crash_line(x):
    m = re.findall(r'(?:SUMMARY|runtime error).*', x['crash'])
    return (m[0] if m else x['crash'][-200:] or 'driver died or timed out')[:200]


def classify(prop, kind, t, v, e, w, x, rec, u):
    """Which clauses of `prop` does result x of feeding bytes w break?"""
    if 'crash' in x:
        if prop in ('c05', 'c07') or kind == 'plain':
            rec('no memory error or undefined behaviour', crash_line(x))
        return
    if prop == 'c03' and kind == 'plain':
        if not x['ok']:
            return rec('C++ decodes canonical bytes', 'decode returned false')
        if x['vec'] != w or x['ptr'] != w:
            return rec('C++ encode(decode(b)) == b', pyunits.diff(x['vec'], w) or pyunits.diff(x['ptr'], w))
        u.ok((t.name, w))
    elif prop == 'c05' and kind in ('plain', 'over'):
        if not x['ok']:
            return
        if x['byte_size'] != x['ret']:
            return rec('get_byte_size() == bytes written', '%d / %d' % (x['byte_size'], x['ret']))
        if x['byte_size'] != len(x['vec']):
            return rec('get_byte_size() == len(encode())', '%d / %d' % (x['byte_size'], len(x['vec'])))
        if W.stiffness(t) == W.FIXED:
            if x['static'] != x['byte_size']:
                return rec('encoded_byte_size == get_byte_size() for fixed types', '%d / %d' % (x['static'], x['byte_size']))
        u.ok((t.name, kind, w))
    elif prop == 'c07':
        if x['exc']:
            return rec('decode returns a boolean', 'exception escaped')
        if x['peak'] > 100 * len(w) + 5000:
            return rec('memory is proportional to the input', 'requested %d bytes for %d input bytes' % (x['peak'], len(w)))
        if x['ok'] and kind != 'over':
            if len(x['vec']) != len(w):
                return rec('accepted input re-encodes to the same length', '%d / %d' % (len(x['vec']), len(w)))
        u.ok((t.name, kind, w))
    elif prop == 'c18' and kind == 'plain' and x['ok']:
        want = W.render(t, v)
        if x['text'] != want:
            return rec('print() renders the documented text', 'got %r expected %r' % (x['text'], want))
        u.ok((t.name, want))
    elif prop == 'c19' and kind == 'plain' and x['ok']:
        enc = W.encode(t, v, '<' if e == 'n' else e)
        if len(x['vec']) != enc.n:
            return rec('encodings have the same length in every byte order', '%d / %d' % (len(x['vec']), enc.n))
        for p in enc.pieces:
            got = x['vec'][p.off:p.off + len(p.data)]
            if p.kind == 'pad' and got.strip(b'\0'):
                return rec('padding is zero', 'offset %d of %s' % (p.off, x['vec'].hex()))
            if p.kind != 'pad' and got != p.data:
                return rec('scalars follow the requested byte order', 'offset %d: %s expected %s' % (p.off, got.hex(), p.data.hex()))
        u.ok((t.name, e, w))


def unit(u, prop, kind, idx):
    r = core.rng('cpp', prop, kind, idx)
    defs, types = schema(kind, idx, r)
    text = S.prophy_text(defs)
    try:
        outs = P.compile_text(text, ('cpp_full',))
    except Exception as e:
        return u.fail('prophyc compiles the schema to C++', repr(e)[:500], schema=text)
    b = cppcodec.Build(defs, text, outs, san=prop not in ('c18', 'c19'))
    try:
        if not b.compile():
            return u.fail('generated C++ compiles', b.log[:600], schema=text)
        cmds, meta = [], []

        def add(t, v, e, w, kind_):
            cmds.append((t.name, e, int(kind_ == 'over'), w))
            meta.append((t, v, e, w, kind_))
        for t in types:
            for k in range(40 if kind.startswith('contract ') else 4):
                v = S.rand_value(r, t, maxlen=3 if k else r.choice([0, 6]))
                if not S.greedy_aligned(t, v):
                    continue
                for e in 'n<>':
                    w = W.encode_bytes(t, v, '<' if e == 'n' else e)
                    add(t, v, e, w, 'plain')
                if prop == 'c05':
                    add(t, v, '<', W.encode_bytes(t, v, '<'), 'over')
                if prop == 'c07':
                    for e in '<>':
                        w = W.encode_bytes(t, v, e)
                        for c in pyunits.mutants(r, w, 6):
                            add(t, None, e, c, 'bad')
        for (t, v, e, w, kd), x in zip(meta, b.batch(cmds)):
            if 'skipped' in x:
                continue

            def rec(clause, what):
                u.fail(clause, what, **pyunits.data(defs, t, v, endian=e, bytes=w.hex(), result=x))
            classify(prop, kd, t, v, e, w, x, rec, u)
    finally:
        b.close()


def work(prop, triples=12, rand=12, pairs=6):
    for i in range(max(triples, rand, pairs)):
        if i < triples:
            yield unit, (prop, 'triples', i)
        if i < rand:
            yield unit, (prop, 'rand', i)
        if i < pairs:
            yield unit, (prop, 'pairs', i)


def contracts(prop, refuted):
    """Values of the very types whose obligations were refuted."""
    from contracts import cpp
    for g in list(cpp.STRUCTS) + list(cpp.UNIONS):
        names = [cpp.describe(t) for t in cpp.schemas(g)[1]] if refuted else []
        if any(n in o.name for n in names for o in refuted):
            yield unit, (prop, 'contract ' + g, 0)
