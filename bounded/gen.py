"""Deterministic families of schemas for the bounded contract evaluations."""
import itertools
from spec import schema as S
from spec import wire as W
from spec.wire import *      # noqa


def base_types(prefix):
    """Named element types of every alignment / stiffness / kind; returns (defs, {label: type})."""
    sc = W.SCALARS
    E = Enum(prefix + 'E', [(prefix + 'E_A', 1), (prefix + 'E_B', 2 ** 31), (prefix + 'E_C', 7), (prefix + 'E_D', 7)])
    A1 = Struct(prefix + 'A1', [Member('x', sc['u8']), Member('y', sc['i8'])])
    A2 = Struct(prefix + 'A2', [Member('x', sc['u16']), Member('y', sc['u8'])])
    A4 = Struct(prefix + 'A4', [Member('x', sc['u8']), Member('y', sc['i32'])])
    A8 = Struct(prefix + 'A8', [Member('x', sc['u64']), Member('y', sc['u16'])])
    O8 = Struct(prefix + 'O8', [Member('x', sc['u8'], OPTIONAL), Member('y', A8, OPTIONAL)])
    D4 = Struct(prefix + 'D4', [Member('x', sc['u8'], DYN_ARR)])
    D8 = Struct(prefix + 'D8', [Member('n', sc['u8']), Member('x', sc['u16'], EXT_ARR, bound='n'), Member('y', sc['u64'])])
    U4 = Union(prefix + 'U4', [Arm('a', sc['u8'], 1), Arm('b', sc['u16'], 2), Arm('c', E, 3)])
    U8 = Union(prefix + 'U8', [Arm('a', A2, 0), Arm('b', sc['i64'], 2 ** 32 - 1), Arm('c', A8, 5)])
    TD = Typedef(prefix + 'TD', A4)
    TU = Typedef(prefix + 'TU', sc['u16'])
    defs = [E, A1, A2, A4, A8, O8, D4, D8, U4, U8, TD, TU] + tails(prefix)
    types = [sc['u8'], sc['u16'], sc['i32'], sc['u64'], sc['r32'], sc['r64'], E, A1, A2, A4, A8, O8, D4, D8, U4, U8, TD, TU, BYTE]
    return defs, types


def tails(prefix):
    """Unlimited structs of every alignment, one of them nesting another."""
    sc = W.SCALARS
    G1 = Struct(prefix + 'UG1', [Member('x', sc['u8']), Member('g', sc['u8'], GREEDY_ARR)])
    G2 = Struct(prefix + 'UG2', [Member('g', sc['i16'], GREEDY_ARR)])
    G4 = Struct(prefix + 'UG4', [Member('x', sc['u16'], DYN_ARR), Member('g', sc['u8'], GREEDY_ARR)])
    G8 = Struct(prefix + 'UG8', [Member('x', sc['u8']), Member('g', sc['u64'], GREEDY_ARR)])
    GN = Struct(prefix + 'UGN', [Member('x', sc['u16']), Member('g', G1)])
    return [G1, G2, G4, G8, GN]


def kinds(types):
    res = []
    for t in types:
        for form in (PLAIN, OPTIONAL, FIXED_ARR, DYN_ARR, LIM_ARR, EXT_ARR):
            if t is BYTE and form in (PLAIN, OPTIONAL):
                continue
            if stiffness(t) != FIXED and form in (OPTIONAL, FIXED_ARR, LIM_ARR):
                continue
            res.append((form, t))
    return res


def member(i, kind):
    form, t = kind
    nm = 'm%d' % i
    if form in (FIXED_ARR, LIM_ARR):
        return [Member(nm, t, form, 3 if form == LIM_ARR else 2)]
    if form == EXT_ARR:
        sz = ('u8', 'u16', 'i32', 'u64', 'i8')[i % 5]
        return [Member('s%d' % i, W.SCALARS[sz]), Member(nm, t, EXT_ARR, bound='s%d' % i)]
    return [Member(nm, t, form)]


def pair_structs(prefix, part, parts, stride=1, floats=True, tails=True):
    """All ordered pairs of member kinds (split over `parts` units), plus each kind before a greedy tail."""
    defs, types = base_types(prefix)
    if not floats:
        types = [t for t in types if t.name not in ('r32', 'r64')]
    ks = kinds(types)
    out = []
    todo = list(itertools.product(ks, ks))
    for n, (a, b) in enumerate(todo):
        if n % parts != part or (n // parts) % stride:
            continue
        out.append(Struct('%sP%d' % (prefix, n), member(0, a) + member(1, b)))
    if tails:
        for n, (a, t) in enumerate(itertools.product(ks, [t for t in types if stiffness(t) != UNLIMITED])):
            if n % parts != part or (n // parts) % (3 * stride):
                continue
            out.append(Struct('%sG%d' % (prefix, n), member(0, a) + [Member('g', t, GREEDY_ARR)]))
        for n, (a, t) in enumerate(itertools.product(ks, [d for d in defs if d.name[len(prefix):] in ('UG1', 'UG2', 'UG4', 'UG8', 'UGN')])):
            if n % parts != part or (n // parts) % stride:
                continue
            out.append(Struct('%sN%d' % (prefix, n), member(0, a) + [Member('g', t)]))
    return defs, out


def triple_structs(prefix, r, n, floats=True, ext=True):
    """n random triples/quadruples of member kinds over the base types."""
    defs, types = base_types(prefix)
    if not floats:
        types = [t for t in types if t.name not in ('r32', 'r64')]
    ks = [k for k in kinds(types) if ext or k[0] != EXT_ARR]
    out = []
    for i in range(n):
        ms = []
        for j in range(r.randint(3, 5)):
            ms += member(j, r.choice(ks))
        w = r.random()
        if w < 0.2:
            ms.append(Member('g', r.choice([t for t in types if stiffness(t) != UNLIMITED]), GREEDY_ARR))
        elif w < 0.3:
            ms.append(Member('g', r.choice([d for d in defs if stiffness(d) == UNLIMITED])))
        out.append(Struct('%sQ%d' % (prefix, i), ms))
    return defs, out


def needed(defs, t):
    """The definitions t depends on, in order, t included."""
    names = set()

    def visit(x):
        if isinstance(x, (Enum, Typedef, Struct, Union)):
            if x.name in names:
                return
            names.add(x.name)
            if isinstance(x, Typedef):
                visit(x.target)
            elif isinstance(x, Struct):
                for m in x.members:
                    visit(m.type)
            elif isinstance(x, Union):
                for a in x.arms:
                    visit(a.type)
    visit(t)
    return [d for d in defs if d.name in names or isinstance(d, Const)]


def schema_for(defs, t):
    return S.prophy_text(needed(defs, t))
