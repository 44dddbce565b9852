"""Bounded contract evaluation of the Python codec (C01, C02, C06, C19 and the Python half of C18)."""
import signal
import time
from vf import core
from spec import schema as S
from spec import wire as W
from spec.wire import *      # noqa
from bounded import gen
from bounded import pycodec as P


def schemas(kind, idx, r):
    """Yields (defs, types to check)."""
    if kind == 'pairs':
        part, parts = idx
        defs, out = gen.pair_structs('P', part, parts)
        yield defs + out, out + ([d for d in S.composites(defs)] if part == 0 else [])
    elif kind == 'signed':
        defs = signed_schema('Z', r)
        yield defs, defs * 6
    elif kind == 'large':
        defs = [Struct('BA', [Member('a', BYTE, DYN_ARR)]), Struct('BB', [Member('n', W.SCALARS['u16']), Member('a', W.SCALARS['u8'], EXT_ARR, bound='n')]),
                Struct('BC', [Member('n', W.SCALARS['i16']), Member('a', BYTE, EXT_ARR, bound='n'), Member('x', W.SCALARS['u64'])]),
                Struct('BD', [Member('a', W.SCALARS['u16'], DYN_ARR)])]
        yield defs, defs
    elif kind == 'triples':
        defs, out = gen.triple_structs('T', r, 60)
        yield defs + out, out
    else:
        for k in range(6):
            defs = S.rand_schema(r, S.Opts(max_members=r.choice([2, 4, 6, 9]), n_structs=r.choice([2, 4, 7])))
            yield defs, S.composites(defs)


def signed_schema(prefix, r):
    """Dynamic elements counted by signed sizers, in arrays which end only by position."""
    sc = W.SCALARS
    defs = []
    for i, n in enumerate(('i8', 'i16', 'i32', 'i64')):
        D = Struct('%sD%d' % (prefix, i), [Member('n', sc[n]), Member('b', r.choice([BYTE, BYTE, sc['u8'], sc['u16'], sc['i64']]), EXT_ARR, bound='n')])
        L = Struct('%sL%d' % (prefix, i), [Member('n', sc[n]), Member('b', D, EXT_ARR, bound='n'), Member('x', sc['u16'], OPTIONAL)])
        G = Struct('%sG%d' % (prefix, i), [Member('h', sc[r.choice(['u8', 'u32'])], DYN_ARR), Member('g', r.choice([D, L]), GREEDY_ARR)])
        defs += [D, L, G]
    return defs


def load(defs):
    text = S.prophy_text(defs)
    return P.load_python(P.compile_text(text)['sch.py'])


def values(r, t, kind):
    if kind == 'large':
        # as long as the counter or the guard of decoding admits
        n = {'BB': 2 ** 16 - 1, 'BC': 2 ** 15 - 1}.get(t.name, 2 ** 16)
        for k in (n, n - 1):
            v = S.rand_value(r, t, maxlen=1)
            v['a'] = b'x' * k if any(m.name == 'a' and m.type is BYTE for m in t.members) else [7] * k
            yield v
        return
    n = {'pairs': 2, 'triples': 3}.get(kind, 4)
    for k in range(n):
        yield S.rand_value(r, t, maxlen=(3 if k != 1 else r.choice([0, 1, 5, 9])))
    if r.random() < 0.03:
        yield S.rand_value(r, t, maxlen=70)


def make(mod, t, v):
    m = getattr(mod, t.name)()
    S.fill(m, t, v)
    return m


def diff(a, b):
    if a == b:
        return None
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return 'first difference at offset %d, lengths %d / %d' % (i, len(a), len(b))


def each(u, kind, idx, fn):
    r = core.rng(fn.__name__, kind, idx)
    for defs, types in schemas(kind, idx, r):
        try:
            mod = load(defs)
        except Exception as e:
            u.fail('prophyc accepts the schema and the module imports', repr(e), schema=S.prophy_text(defs))
            continue
        for t in types:
            for v in values(r, t, kind):
                fn(u, defs, mod, t, v, r)


def data(defs, t, v, **kw):
    d = dict(schema=gen.schema_for(defs, t), type=t.name, value=repr(v))
    d.update(kw)
    return d


# ------------------------------------------------------------------ C01
def c01(u, defs, mod, t, v, r):
    for e in '<>':
        want = W.encode_bytes(t, v, e)
        try:
            got = make(mod, t, v).encode(e)
        except Exception as x:
            u.fail('encode returns the canonical bytes', 'encode raised %r' % x, **data(defs, t, v, endian=e, expected=want.hex()))
            continue
        d = diff(got, want)
        if d:
            u.fail('encode returns the canonical bytes', d, **data(defs, t, v, endian=e, got=got.hex(), expected=want.hex()))
        else:
            u.ok((t.name, want))


def c02(u, defs, mod, t, v, r):
    if not S.greedy_aligned(t, v):
        return
    for e in '<>':
        kw = data(defs, t, v, endian=e)
        try:
            b = make(mod, t, v).encode(e)
        except Exception as x:
            u.fail('encode succeeds', repr(x), **kw)
            continue
        kw['bytes'] = b.hex()
        m = getattr(mod, t.name)()
        try:
            n = m.decode(b, e)
        except Exception as x:
            u.fail('decode(encode(x)) succeeds', repr(x), **kw)
            continue
        if n != len(b):
            u.fail('decode consumes the whole input', 'returned %r for %d bytes' % (n, len(b)), **kw)
            continue
        try:
            back = S.read(m, t)
        except Exception as x:
            u.fail('decoded message is readable', repr(x), **kw)
            continue
        if back != v:
            u.fail('decode(encode(x)) == x', 'read back %r' % (back,), **kw)
            continue
        try:
            again = m.encode(e)
        except Exception as x:
            u.fail('re-encode succeeds', repr(x), **kw)
            continue
        if again != b:
            u.fail('re-encode gives the same bytes', diff(again, b), **kw)
            continue
        u.ok((t.name, b))


def c19(u, defs, mod, t, v, r):
    kw = data(defs, t, v)
    try:
        m = make(mod, t, v)
        le, be = m.encode('<'), m.encode('>')
    except Exception as x:
        u.fail('encode succeeds', repr(x), **kw)
        return
    kw.update(little=le.hex(), big=be.hex())
    if len(le) != len(be):
        u.fail('both encodings have the same length', '%d / %d' % (len(le), len(be)), **kw)
        return
    for p in W.encode(t, v, '<').pieces:
        a, b = le[p.off:p.off + len(p.data)], be[p.off:p.off + len(p.data)]
        if p.kind == 'pad' and (a.strip(b'\0') or b.strip(b'\0')):
            u.fail('padding is zero', 'offset %d' % p.off, **kw)
            return
        if p.kind == 'scalar' and a != b[::-1]:
            u.fail('scalars are reversed in place', 'offset %d' % p.off, **kw)
            return
        if p.kind == 'bytes' and a != b:
            u.fail('byte strings do not depend on byte order', 'offset %d' % p.off, **kw)
            return
    u.ok((t.name, le))


def c18(u, defs, mod, t, v, r):
    kw = data(defs, t, v)
    want = W.render(t, v)
    try:
        got = str(make(mod, t, v))
    except Exception as x:
        u.fail('str() renders the message', repr(x), **kw)
        return
    if got != want:
        u.fail('str() renders the documented text', 'differs', got=got, expected=want, **kw)
    else:
        u.ok((t.name, want))


# ------------------------------------------------------------------ C06
MUT = [0, 1, 2, 4, 8, 16, 127, 128, 254, 255]


def mutants(r, b, n):
    for _ in range(n):
        c = bytearray(b)
        for _ in range(r.choice([1, 1, 1, 2, 4])):
            k = r.random()
            if k < 0.3:
                c = c[:r.randint(0, len(c))]
            elif k < 0.45:
                c += bytes(r.choice(MUT) for _ in range(r.randint(1, 9)))
            elif c:
                i = r.randrange(len(c))
                if k < 0.6:
                    c[i] ^= 1 << r.randrange(8)
                elif k < 0.7:
                    c[i:i + 4] = bytes([r.choice([0, 255])]) * len(c[i:i + 4])
                else:
                    c[i] = r.choice(MUT)
        yield bytes(c)
    yield bytes(r.choice(MUT) for _ in range(r.randint(0, 40)))
    yield b''


class Overdue(BaseException):
    pass


def overdue(*_):
    raise Overdue('decode still runs after 10 s')


def c06(u, defs, mod, t, v, r):
    import prophy
    import resource
    if not hasattr(c06, 'limited'):
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        c06.limited = True
    e = r.choice('<>')
    b = W.encode_bytes(t, v, e)
    for c in mutants(r, b, 5):
        kw = data(defs, t, None, endian=e, bytes=c.hex())
        m = getattr(mod, t.name)()
        t0 = time.process_time()
        signal.signal(signal.SIGVTALRM, overdue)
        signal.setitimer(signal.ITIMER_VIRTUAL, 10)
        try:
            n = m.decode(c, e)
        except prophy.ProphyError:
            u.ok((t.name, 'rejected', len(c)))
            if time.process_time() - t0 > 5:
                u.fail('decode terminates promptly', '%.1f s' % (time.process_time() - t0), **kw)
            continue
        except BaseException as x:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            u.fail('decode returns or raises ProphyError', repr(x)[:300], **kw)
            continue
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if time.process_time() - t0 > 5:
            u.fail('decode terminates promptly', '%.1f s' % (time.process_time() - t0), **kw)
            continue
        try:
            v1 = S.read(m, t)
            b1 = m.encode(e)
        except BaseException as x:
            u.fail('an accepted message encodes', repr(x)[:300], **kw)
            continue
        if not S.greedy_aligned(t, v1):
            u.ok((t.name, 'greedy tail unaligned'))
            continue
        m2 = getattr(mod, t.name)()
        try:
            m2.decode(b1, e)
            v2, b2 = S.read(m2, t), m2.encode(e)
        except BaseException as x:
            u.fail('decoding the re-encoding succeeds', repr(x)[:300], reencoded=b1.hex(), **kw)
            continue
        if b1 != b2 or repr(v1) != repr(v2):
            u.fail('decode/encode is a fixpoint', 'value or bytes changed: %r / %r' % (v1, v2), reencoded=b1.hex(), **kw)
            continue
        u.ok((t.name, 'accepted', c))


def unit(u, fn, kind, idx):
    each(u, kind, idx, {'c01': c01, 'c02': c02, 'c06': c06, 'c19': c19, 'c18': c18}[fn])


def work(fn, parts=24, pairs=24, triples=24, rand=48):
    for i in range(pairs):
        yield unit, (fn, 'pairs', (i, parts))
    for i in range(triples):
        yield unit, (fn, 'triples', i)
    for i in range(6):
        yield unit, (fn, 'signed', i)
    if fn in ('c01', 'c02'):
        yield unit, (fn, 'large', 0)
    for i in range(rand):
        yield unit, (fn, 'rand', i)
