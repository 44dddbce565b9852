"""Groups of contracts, run in parallel processes; every group yields core.Ob objects."""
import importlib
import multiprocessing
import re
import time
import traceback

from vf import core

LIMIT = 150


def _in(module, name, *a):
    def f():
        r = getattr(importlib.import_module('contracts.' + module), name)(*a)
        return r if isinstance(r, list) else [r]
    return f


def _rt(name, *a):
    return _in('rt', name, *a)


# name -> (callable, tags every result of the group has in addition to its own)
GROUPS = {
    'padding': (_rt('leaf_padding'), 'enc dec total attr'),
    'wire attributes': (_rt('leaf_wire'), 'enc dec total attr'),
    'scalars': (_rt('scalars'), ''),
    'struct encode': (_rt('struct_encode', False), ''),
    'packed struct encode': (_rt('struct_encode', True), ''),
    'struct decode': (_rt('struct_decode', False, False), ''),
    'packed struct decode': (_rt('struct_decode', True, False), ''),
    'struct decode of any bytes': (_rt('struct_decode', False, True), ''),
    'packed struct decode of any bytes': (_rt('struct_decode', True, True), ''),
    'public decode': (_rt('struct_public_decode'), ''),
    'arrays encode': (_rt('array_encode'), ''),
    'scalar arrays decode': (_rt('scalar_array_decode'), ''),
    'composite arrays decode': (_rt('composite_array_decode'), ''),
    'monotone lengths': (_rt('lemma_mono'), 'dec total'),
    'bytes': (_rt('bytes_codec'), ''),
    'sizer': (_rt('sizer'), ''),
    'optional': (_rt('optional_codec'), ''),
    'member codecs': (_rt('descriptors'), ''),
    'codec choice': (_rt('codec_choice'), ''),
    'union': (_rt('union_codec'), ''),
    'struct attributes': (_rt('struct_attributes'), ''),
    'layout lemmas': (_rt('lemma_static'), ''),
    'union attributes': (_rt('union_attributes'), ''),
}


def _work(name, tags):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        from contracts.base import obligations
        fn, extra = GROUPS[name]
        got = fn()
        if all(isinstance(r, core.Ob) for r in got):
            return got
        res = [r for r in got if tags is None or set((getattr(r, 'tags', '') + ' ' + extra).split()) & set(tags)]
        obs = obligations(res)
        for o in obs:
            o.model = None if o.model is None else str(o.model)
            o.info = None
        return obs
    except Exception:
        return [core.Ob('%s: contracts can be stated' % name, name, 'unsupported', 0.0, traceback.format_exc()[-1500:])]


def _child(conn, name, tags):
    conn.send(_work(name, tags))
    conn.close()


def run(names, tags=None, procs=8):
    """Runs the groups in forked processes; a group that dies or exceeds the limit yields an undecided obligation."""
    ctx = multiprocessing.get_context('fork')
    todo = list(names)
    live = []
    out = {}
    while todo or live:
        while todo and len(live) < procs:
            n = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, n, tags))
            p.start()
            b.close()
            live.append((n, p, a, time.time()))
        for item in list(live):
            n, p, a, t0 = item
            got = None
            if a.poll(0.02):
                try:
                    got = a.recv()
                except EOFError:
                    got = [core.Ob('%s: verifier finishes' % n, n, 'unknown', 0.0, 'verifier process died')]
            elif time.time() - t0 > LIMIT:
                got = [core.Ob('%s: verifier finishes' % n, n, 'unknown', 0.0, 'time limit')]
            if got is not None:
                p.terminate()
                p.join()
                live.remove(item)
                out[n] = got
    return [o for n in names for o in out[n]]


RUNTIME = [n for n in GROUPS]

# contracts outside the runtime codec: property -> groups, all obligations of which it needs
OTHER = {
    'C04': {
        'sizes of struct members and structs': _in('model', 'struct_sizes'),
        'sizes of unions': _in('model', 'union_sizes'),
        'sizes of empty structs': _in('model', 'empty_struct'),
        'kinds of members': _in('model', 'typedef_kind'),
        'kinds of structs': _in('model', 'struct_kind'),
        'layout of model members': _in('model', 'member_lemma'),
        'blocks and paddings': _in('model', 'lemmas'),
    },
    'C14': {
        'expression actions of the prophy parser': _in('expr', 'prophy_actions'),
        'expression actions of calc': _in('expr', 'calc_actions'),
        'operator grouping': _in('expr', 'groupings'),
        'literals': _in('expr', 'literals'),
        'constants and their uses': _in('expr', 'names'),
        'calc evaluation': _in('expr', 'calc_eval'),
        'numbers of the model': _in('state', 'numbers'),
    },
    'C10': {
        'scalar array operations': _in('api', 'scalar_arrays'),
        'composite array operations': _in('api', 'composite_arrays'),
        'struct fields': _in('api', 'struct_fields'),
        'union discriminator': _in('api', 'discriminators'),
        'enum values': _in('api', 'enum_values'),
        'union fields': _in('api', 'union_fields'),
        'limits of counted arrays': _in('api', 'sizer_limits'),
    },
    'C11': {
        'struct copy': _in('api', 'copy_struct'),
        'union copy': _in('api', 'copy_union'),
        'field copy': _in('api', 'set_field'),
        'element copy': _in('api', 'composite_arrays'),
    },
}
OTHER['C09'] = {'raw C++ ' + n: _in('raw', 'group', n) for n in (
    'several dynamic members', 'several arrays of one counter', 'fixed arrays', 'limited arrays', 'dynamic arrays', 'arrays of dynamic structs',
    'dynamic arrays of composites', 'greedy tails', 'external counters', 'optionals', 'scalars', 'dynamic structs', 'unions')}
OTHER['C08'] = {'raw C++ ' + n: _in('layout', f) for n, f in (
    ('members', 'members'), ('paddings', 'paddings'), ('union definitions', 'unions'), ('structs', 'sequences'), ('packing', 'packed'))}
OTHER['C18'] = {'text C++ ' + n: _in('text', 'group', n) for n in (
    'mixed with a greedy tail', 'greedy arrays', 'several dynamic members', 'arrays of dynamic structs', 'mixed', 'dynamic arrays', 'dynamic arrays of composites',
    'external counters', 'limited arrays of composites', 'limited arrays', 'optionals of composites', 'optionals', 'fixed arrays', 'bytes', 'scalars',
    'dynamic structs', 'unions', 'unlimited structs')}
OTHER['C18'].update({'text parts': _in('text', 'parts'), 'text in Python': _in('text', 'python')})
OTHER['C12'] = {n: _in('rules', f) for n, f in (
    ('rules of struct members', 'struct_members'), ('types of counters', 'sizer_types'), ('struct definitions', 'struct_def'), ('rules of union arms', 'union_def'), ('forms of struct members', 'member_forms'),
    ('types and names', 'types_and_names'), ('reported errors', 'errors_reject'))}
OTHER['C12'].update({'array extents': _in('expr', 'extents'), 'constants and their uses': _in('expr', 'names'),
                     'kinds of members': _in('model', 'typedef_kind'), 'kinds of structs': _in('model', 'struct_kind')})
OTHER['C17'] = {n: _in('patch', f) for n, f in (('patch rules', 'rules'), ('patch rules of a message', 'apply'), ('patched messages', 'messages'))}
OTHER['C17'].update({n: OTHER['C12'][n] for n in ('forms of struct members', 'types and names')})
OTHER['C17'].update({'isar ' + n: _in('isar', f) for n, f in (
    ('members', 'members'), ('constants and typedefs', 'simple'), ('unions', 'unions'), ('enums', 'enums'), ('structs', 'struct'))})
OTHER['C17'].update({'isar arrays of a %s, optional %s' % (m, o): _in('isar', 'dimensions', m == 'message', o)
                     for m in ('struct', 'message') for o in ('absent', 'false', 'true')})
OTHER['C16'] = {'search of included files': _in('files', 'search'), 'cache of processed files': _in('files', 'cache'),
                'definitions of an include': _in('scope', 'symbols'), 'index of the types': _in('scope', 'index')}
OTHER['C15'] = {'sort of definitions': _in('order', 'sort'), 'dependencies of definitions': _in('order', 'dependencies')}
OTHER['C13'] = {n: f for p in ('C12', 'C14', 'C15', 'C16', 'C17') for n, f in OTHER[p].items() if n not in ('kinds of structs', 'operator grouping')}
OTHER['C20'] = {'state of the evaluator': _in('state', 'calc_state'), 'state of the parser': _in('state', 'parser_state')}
OTHER['C20'].update({n: OTHER['C16'][n] for n in ('search of included files', 'cache of processed files')})
for _groups in OTHER.values():
    GROUPS.update((_n, (_f, '')) for _n, _f in _groups.items())


# generated C++ full codecs: property -> (parts of the contracts, obligations it does not need)
CPP = {
    'C03': ('enc dec public', r'memory requested|every (load|store)|every shift|accepted input follows'),
    'C05': ('enclen size public', r'decode<|every load'),
    'C07': ('enclen declen public', r'input that follows the rules is accepted|some input is accepted'),
    'C19': ('enc public', r'decode<|every (load|store)|every shift'),
}
CPP_GROUPS = ['mixed', 'mixed with a greedy tail', 'several dynamic members', 'limited arrays of composites', 'limited arrays',
              'optionals of composites', 'optionals', 'arrays of dynamic structs', 'dynamic arrays of composites',
              'dynamic arrays', 'external counters', 'fixed arrays', 'bytes', 'scalars', 'greedy arrays', 'dynamic structs',
              'unions', 'unlimited structs']


def _cpp(name, parts):
    def f():
        from contracts import cpp
        return cpp.group(name, parts.split())
    return f


for _parts, _ in CPP.values():
    for _n in CPP_GROUPS:
        GROUPS['C++ %s: %s' % (_n, _parts)] = (_cpp(_n, _parts), '')


def cpp(prop, more=()):
    parts, drop = CPP[prop]
    obs = run(['C++ %s: %s' % (n, parts) for n in CPP_GROUPS])
    obs = [o for o in obs if not re.search(drop, o.name)]
    return soften(prop, obs)


def subject(o):
    m = re.match(r'[^ ]+(?:<\w+>)? of (.*?}): ', o.name)
    return m.group(1) if m else None


def soften(prop, obs):
    """Both sides of a comparison refuted: they may still agree with each other, so no violation follows from the obligations alone."""
    bad = {}
    for o in obs:
        if o.status == 'refuted':
            bad.setdefault(subject(o), set()).add(o.function)
    for o in obs:
        if o.status != 'refuted':
            continue
        fs = bad[subject(o)]
        if prop == 'C05' and 'inside the buffer' not in o.name and 'get_byte_size' in fs and len(fs) > 1:
            o.status = 'unknown'
        if prop == 'C19' and 'message_impl::encode<big>' in fs and 'message_impl::encode<little>' in fs:
            o.status = 'unknown'
    return obs


def of(prop, only=None):
    return run([n for n in OTHER[prop] if only is None or n in only])


def runtime(*tags):
    need = {'struct decode': 'dec', 'packed struct decode': 'dec', 'struct attributes': 'attr',
            'scalar arrays decode': 'dec total', 'composite arrays decode': 'dec total', 'union attributes': 'attr'}
    slow = ['struct decode', 'struct attributes', 'scalar arrays decode', 'composite arrays decode']
    names = slow + [n for n in RUNTIME if n not in slow]
    return run([n for n in names if n not in need or set(need[n].split()) & set(tags)], tags)
