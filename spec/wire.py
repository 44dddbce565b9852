"""Specification of the prophy wire format, written from docs/encoding.rst and the property texts.

Nothing here imports or copies code of /repo.  It is the oracle: the spec functions
(alignment, size, stiffness, offsets, canonical encoding) that contracts refer to,
in executable form.
"""
import struct as _pystruct


def roundup(n, a):
    return (n + a - 1) // a * a


class Scalar(object):
    def __init__(self, name, size, fmt, lo=None, hi=None):
        self.name, self.nbytes, self.fmt, self.lo, self.hi = name, size, fmt, lo, hi

    def __repr__(self):
        return self.name


SCALARS = {}
for _n, _s, _f in (("u8", 1, "B"), ("u16", 2, "H"), ("u32", 4, "I"), ("u64", 8, "Q")):
    SCALARS[_n] = Scalar(_n, _s, _f, 0, 2 ** (8 * _s) - 1)
for _n, _s, _f in (("i8", 1, "b"), ("i16", 2, "h"), ("i32", 4, "i"), ("i64", 8, "q")):
    SCALARS[_n] = Scalar(_n, _s, _f, -2 ** (8 * _s - 1), 2 ** (8 * _s - 1) - 1)
SCALARS["r32"] = Scalar("r32", 4, "f")
SCALARS["r64"] = Scalar("r64", 8, "d")
BYTE = Scalar("byte", 1, "B", 0, 255)
U32 = SCALARS["u32"]


class Const(object):
    def __init__(self, name, value, text=None):
        self.name, self.value, self.text = name, value, text if text is not None else str(value)


class Enum(object):
    def __init__(self, name, members):
        self.name, self.members = name, list(members)     # [(name, int)]

    def __repr__(self):
        return self.name


class Typedef(object):
    def __init__(self, name, target):
        self.name, self.target = name, target

    def __repr__(self):
        return self.name


PLAIN, OPTIONAL, FIXED_ARR, DYN_ARR, LIM_ARR, GREEDY_ARR, EXT_ARR = (
    "plain", "optional", "fixed", "dynamic", "limited", "greedy", "ext")


class Member(object):
    """One struct member as written in the schema."""

    def __init__(self, name, type_, form=PLAIN, size=None, bound=None, size_text=None):
        self.name, self.type, self.form, self.size, self.bound = name, type_, form, size, bound
        self.size_text = size_text if size_text is not None else (str(size) if size is not None else None)

    def __repr__(self):
        return "%s %s:%s%s%s" % (self.type, self.name, self.form, self.size or '', self.bound or '')


class Struct(object):
    def __init__(self, name, members):
        self.name, self.members = name, list(members)

    def __repr__(self):
        return self.name


class Arm(object):
    def __init__(self, name, type_, disc, disc_text=None):
        self.name, self.type, self.disc = name, type_, disc
        self.disc_text = disc_text if disc_text is not None else str(disc)


class Union(object):
    def __init__(self, name, arms):
        self.name, self.arms = name, list(arms)

    def __repr__(self):
        return self.name


def resolve(t):
    while isinstance(t, Typedef):
        t = t.target
    return t


# ---------------------------------------------------------------- lowering
class Low(object):
    """A wire-level field: sizers of dynamic/limited arrays made explicit."""
    __slots__ = ("name", "type", "form", "size", "bound", "sizes", "src")

    def __init__(self, name, type_, form, size=None, bound=None, sizes=None, src=None):
        self.name, self.type, self.form, self.size, self.bound = name, type_, form, size, bound
        self.sizes = sizes or []
        self.src = src


def lower(s):
    out = []
    for m in s.members:
        if m.form in (DYN_ARR, LIM_ARR):
            sizer = Low("num_of_" + m.name, U32, PLAIN)
            out.append(sizer)
            out.append(Low(m.name, m.type, m.form, m.size, sizer.name, src=m))
            sizer.sizes.append(out[-1])
        elif m.form == EXT_ARR:
            low = Low(m.name, m.type, LIM_ARR if m.size else DYN_ARR, m.size, m.bound, src=m)
            out.append(low)
            for f in out:
                if f.name == m.bound:
                    f.sizes.append(low)
        else:
            out.append(Low(m.name, m.type, m.form, m.size, src=m))
    return out


# ---------------------------------------------------------------- static layout
FIXED, DYNAMIC, UNLIMITED = 0, 1, 2


def alignment(t):
    t = resolve(t)
    if isinstance(t, Scalar):
        return t.nbytes
    if isinstance(t, Enum):
        return 4
    if isinstance(t, Struct):
        return max([field_alignment(f) for f in lower(t)] or [1])
    if isinstance(t, Union):
        return max([4] + [alignment(a.type) for a in t.arms])
    raise TypeError(t)


def field_alignment(f):
    a = alignment(f.type)
    return max(4, a) if f.form == OPTIONAL else a


def stiffness(t):
    t = resolve(t)
    if isinstance(t, Struct):
        return max([field_stiffness(f) for f in lower(t)] or [0])
    return FIXED


def field_stiffness(f):
    if f.form == GREEDY_ARR:
        return UNLIMITED
    if f.form == DYN_ARR:
        return max(DYNAMIC, stiffness(f.type))
    return stiffness(f.type)


def size(t):
    """Wire size of a fixed type; size of the static part otherwise."""
    t = resolve(t)
    if isinstance(t, Scalar):
        return t.nbytes
    if isinstance(t, Enum):
        return 4
    if isinstance(t, Union):
        a = alignment(t)
        return roundup(a + max(size(x.type) for x in t.arms), a)
    if isinstance(t, Struct):
        return layout(t).size
    raise TypeError(t)


def field_size(f):
    s = size(f.type)
    if f.form == OPTIONAL:
        return max(4, alignment(f.type)) + s
    if f.form in (FIXED_ARR, LIM_ARR):
        return s * f.size
    if f.form in (DYN_ARR, GREEDY_ARR):
        return 0
    return s


class Layout(object):
    pass


def layout(s):
    """Static layout.  offsets are counted with every dynamic part empty and every block
    start taken as aligned to its block alignment (what a generated raw struct sees)."""
    fields = lower(s)
    lay = Layout()
    lay.fields = fields
    lay.align = max([field_alignment(f) for f in fields] or [1])
    lay.block_align = block_alignments(fields)
    off, offs = 0, []
    for f, ba in zip(fields, lay.block_align):
        off = roundup(off, max(field_alignment(f), ba or 1))
        offs.append(off)
        off += field_size(f)
    lay.end = off
    lay.offsets = offs
    lay.size = roundup(off, lay.align)
    lay.stiffness = stiffness(s)
    return lay


def block_alignments(fields):
    """For each field: block alignment if it starts a block other than the first, else None."""
    res = [None] * len(fields)
    i = 0
    first = True
    while i < len(fields):
        j = i
        while j < len(fields) and field_stiffness(fields[j]) == FIXED:
            j += 1
        j = min(j, len(fields) - 1)
        if not first:
            res[i] = max(field_alignment(f) for f in fields[i:j + 1])
        first = False
        i = j + 1
    return res


# ---------------------------------------------------------------- canonical encoding
class Piece(object):
    __slots__ = ("off", "kind", "data")      # kind: 'scalar' | 'pad' | 'bytes'

    def __init__(self, off, kind, data):
        self.off, self.kind, self.data = off, kind, data


class Enc(object):
    def __init__(self, endian):
        self.e = endian
        self.pieces = []
        self.n = 0

    def put(self, kind, data):
        if data:
            self.pieces.append(Piece(self.n, kind, data))
            self.n += len(data)

    def pad_to(self, a, base):
        k = -(self.n - base) % a
        self.put('pad', b'\0' * k)

    def bytes(self):
        return b''.join(p.data for p in self.pieces)


class UnequalSizes(Exception):
    pass


def encode(t, v, endian):
    e = Enc(endian)
    _enc(t, v, e)
    return e


def encode_bytes(t, v, endian):
    return encode(t, v, endian).bytes()


def _enc(t, v, e):
    t = resolve(t)
    if isinstance(t, Scalar):
        e.put('scalar', _pystruct.pack(e.e + t.fmt, v))
    elif isinstance(t, Enum):
        e.put('scalar', _pystruct.pack(e.e + 'I', enum_value(t, v)))
    elif isinstance(t, Union):
        base = e.n
        arm = union_arm(t, v)
        e.put('scalar', _pystruct.pack(e.e + 'I', arm.disc))
        e.pad_to(alignment(t), base)
        _enc(arm.type, v[1], e)
        e.put('pad', b'\0' * (size(t) - (e.n - base)))
    elif isinstance(t, Struct):
        base = e.n
        fields = lower(t)
        for f, ba in zip(fields, block_alignments(fields)):
            e.pad_to(max(field_alignment(f), ba or 1), base)
            _enc_field(f, v, e)
        e.pad_to(alignment(t), base)
    else:
        raise TypeError(t)


def member_spans(t, v):
    """[(start, end)] of each field of one struct value, then its end, as offsets from its start."""
    e = Enc('<')
    fields = lower(t)
    res = []
    for f, ba in zip(fields, block_alignments(fields)):
        e.pad_to(max(field_alignment(f), ba or 1), 0)
        start = e.n
        _enc_field(f, v, e)
        res.append((start, e.n))
    e.pad_to(alignment(t), 0)
    return res, e.n


def enum_value(t, v):
    if isinstance(v, str):
        return dict(t.members)[v]
    return v


def union_arm(t, v):
    for a in t.arms:
        if a.name == v[0]:
            return a
    raise KeyError(v[0])


def _enc_field(f, v, e):
    if f.sizes:
        lens = set(len(v[a.name]) for a in f.sizes)
        if len(lens) != 1:
            raise UnequalSizes(f.name)
        _enc(f.type, lens.pop(), e)
        return
    x = v[f.name]
    if f.form == PLAIN:
        _enc(f.type, x, e)
    elif f.form == OPTIONAL:
        a = max(4, alignment(f.type))
        if x is None:
            e.put('scalar', b'\0' * 4)
            e.put('pad', b'\0' * (a - 4 + size(f.type)))
        else:
            e.put('scalar', _pystruct.pack(e.e + 'I', 1))
            e.put('pad', b'\0' * (a - 4))
            _enc(f.type, x, e)
    else:
        start = e.n
        if f.type is BYTE:
            e.put('bytes', bytes(x))
        else:
            for el in x:
                _enc(f.type, el, e)
        if f.form in (LIM_ARR, FIXED_ARR):
            e.put('pad', b'\0' * (size(f.type) * f.size - (e.n - start)))


# ---------------------------------------------------------------- canonical text rendering (C18)
def render(t, v, ind=''):
    t = resolve(t)
    out = ''
    if isinstance(t, Union):
        arm = union_arm(t, v)
        return _render_field(arm.name, arm.type, v[1], ind)
    for m in t.members:
        if m.name not in v:
            continue
        x = v[m.name]
        if m.form == OPTIONAL:
            if x is not None:
                out += _render_field(m.name, m.type, x, ind)
        elif m.form == PLAIN:
            if any(o.form == EXT_ARR and o.bound == m.name for o in t.members):
                continue
            out += _render_field(m.name, m.type, x, ind)
        elif m.type is BYTE:
            out += "%s%s: '%s'\n" % (ind, m.name, escape(x))
        else:
            for el in x:
                out += _render_field(m.name, m.type, el, ind)
    return out


def _render_field(name, t, v, ind):
    r = resolve(t)
    if isinstance(r, (Struct, Union)):
        return "%s%s {\n%s%s}\n" % (ind, name, render(r, v, ind + '  '), ind)
    if isinstance(r, Enum):
        names = [n for n, val in r.members if val == enum_value(r, v)]
        return "%s%s: %s\n" % (ind, name, names[-1] if names else v)
    if r.lo is None:
        return "%s%s: %g\n" % (ind, name, v)       # both print() and str() use six significant digits
    return "%s%s: %s\n" % (ind, name, v)


def escape(b):
    res = ''
    for c in bytes(b):
        if c == 9:
            res += '\\t'
        elif c == 10:
            res += '\\n'
        elif c == 13:
            res += '\\r'
        elif c == 39:
            res += "\\'"
        elif c == 92:
            res += '\\\\'
        elif 32 <= c < 127:
            res += chr(c)
        else:
            res += '\\x%02x' % c
    return res
