"""Schemas: text emission (prophy, isar), bounded generation of schemas and values,
and moving spec values in and out of real Python messages."""
import random
import zlib
from .wire import *          # noqa
from . import wire as W


# ---------------------------------------------------------------- text
def tname(t):
    return {"r32": "float", "r64": "double", "byte": "bytes"}.get(t.name, t.name)


def prophy_def(d):
    if isinstance(d, Const):
        return "const %s = %s;\n" % (d.name, d.text)
    if isinstance(d, Typedef):
        return "typedef %s %s;\n" % (tname(d.target), d.name)
    if isinstance(d, Enum):
        return "enum %s\n{\n%s\n};\n" % (d.name, ",\n".join("    %s = %s" % (m[0], m[2] if len(m) > 2 else m[1]) for m in d.members))
    if isinstance(d, Union):
        return "union %s\n{\n%s\n};\n" % (d.name, "\n".join("    %s: %s %s;" % (a.disc_text, tname(a.type), a.name) for a in d.arms))
    if isinstance(d, Struct):
        return "struct %s\n{\n%s\n};\n" % (d.name, "\n".join("    " + prophy_member(m) for m in d.members))
    raise TypeError(d)


def prophy_member(m):
    t = tname(m.type)
    return {
        PLAIN: "%s %s;" % (t, m.name),
        OPTIONAL: "%s* %s;" % (t, m.name),
        FIXED_ARR: "%s %s[%s];" % (t, m.name, m.size_text),
        DYN_ARR: "%s %s<>;" % (t, m.name),
        LIM_ARR: "%s %s<%s>;" % (t, m.name, m.size_text),
        GREEDY_ARR: "%s %s<...>;" % (t, m.name),
        EXT_ARR: "%s %s<@%s>;" % (t, m.name, m.bound),
    }[m.form]


COMMENTS = ("%s", "%s", "%s", "/* about it */ %s", "// line ; { /* \n%s", "/* two *\n * lines // */\n%s", "%s// after\n", "/**/%s/* x; */")


def prophy_text(defs):
    """Comments are part of the input: they change nothing."""
    return "\n".join(COMMENTS[zlib.crc32(d.name.encode()) % len(COMMENTS)] % prophy_def(d) for d in defs)


# ---------------------------------------------------------------- random schemas
INTS = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"]
ALL_SCALARS = INTS + ["r32", "r64"]


class Opts(object):
    def __init__(self, **kw):
        self.floats = kw.get("floats", True)
        self.ext = kw.get("ext", True)
        self.multi_ext = kw.get("multi_ext", True)
        self.greedy = kw.get("greedy", True)
        self.max_members = kw.get("max_members", 6)
        self.n_structs = kw.get("n_structs", 4)
        self.unions = kw.get("unions", True)
        self.enums = kw.get("enums", True)
        self.typedefs = kw.get("typedefs", True)
        self.bytes_ = kw.get("bytes_", True)
        self.sizers = kw.get("sizers", INTS)


def rand_schema(rng, opts=None, prefix=""):
    """A list of definitions in dependency order; the last ones are structs."""
    o = opts or Opts()
    defs = []
    names = o.n_structs
    scalars = INTS + (["r32", "r64"] if o.floats else [])
    types = []          # composite / named candidates

    def scalar():
        return SCALARS[rng.choice(scalars)]

    def anytype(pred=lambda t: True):
        cands = [t for t in types if pred(t)]
        if cands and rng.random() < 0.5:
            return rng.choice(cands[-6:])
        return scalar()

    consts = []
    for i in range(rng.randint(0, 2)):
        c = Const("%sK%d" % (prefix, i), rng.randint(1, 4))
        consts.append(c)
        defs.append(c)
    if o.enums:
        for i in range(rng.randint(1, 2)):
            vals = rng.sample([0, 1, 2, 3, 7, 100, 65536, 2 ** 31, 2 ** 32 - 1], rng.randint(1, 3))
            e = Enum("%sE%d" % (prefix, i), [("%sE%d_%d" % (prefix, i, j), v) for j, v in enumerate(vals)])
            defs.append(e)
            types.append(e)
    if o.typedefs:
        for i in range(rng.randint(0, 2)):
            t = Typedef("%sT%d" % (prefix, i), anytype())
            defs.append(t)
            types.append(t)
    nstruct = 0
    while nstruct < names:
        if o.unions and rng.random() < 0.25:
            arms = []
            n = rng.randint(1, 3)
            discs = rng.sample([0, 1, 2, 3, 5, 1000, 2 ** 31 - 1, 2 ** 32 - 1], n)
            for j in range(n):
                arms.append(Arm("a%d" % j, anytype(lambda t: stiffness(t) == FIXED), discs[j]))
            u = Union("%sU%d" % (prefix, len(defs)), arms)
            defs.append(u)
            types.append(u)
            continue
        s = rand_struct(rng, o, "%sS%d" % (prefix, nstruct), anytype, consts)
        nstruct += 1
        defs.append(s)
        types.append(s)
        if o.typedefs and rng.random() < 0.15:
            t = Typedef("%sTD%d" % (prefix, len(defs)), s)
            defs.append(t)
            types.append(t)
    return defs


def rand_struct(rng, o, name, anytype, consts=()):
    n = rng.randint(1, o.max_members)
    members = []
    sizers = []      # (name, used)
    for j in range(n):
        last = j == n - 1
        nm = "f%d" % j
        form = rng.choice([PLAIN, PLAIN, PLAIN, OPTIONAL, FIXED_ARR, DYN_ARR, DYN_ARR, LIM_ARR, GREEDY_ARR, EXT_ARR, EXT_ARR])
        if form == GREEDY_ARR and not (last and o.greedy):
            form = DYN_ARR
        if form == EXT_ARR:
            usable = [s for s in sizers if o.multi_ext or not s[1]]
            if not o.ext:
                form = DYN_ARR
            elif not usable:
                t = SCALARS[rng.choice(o.sizers)]
                members.append(Member(nm, t))
                sizers.append([nm, False])
                continue
        fixed = form in (OPTIONAL, FIXED_ARR, LIM_ARR)
        maxst = FIXED if fixed else (DYNAMIC if (not last or form in (DYN_ARR, EXT_ARR, GREEDY_ARR) or not o.greedy) else UNLIMITED)
        if o.bytes_ and form in (FIXED_ARR, DYN_ARR, LIM_ARR, GREEDY_ARR, EXT_ARR) and rng.random() < 0.3:
            t = BYTE
        else:
            t = anytype(lambda t: stiffness(t) <= maxst)
        sz = st = None
        if form in (FIXED_ARR, LIM_ARR):
            if consts and rng.random() < 0.3:
                c = rng.choice(consts)
                sz, st = c.value, c.name
            else:
                sz = rng.randint(1, 4)
        if form == EXT_ARR:
            s = rng.choice(usable)
            s[1] = True
            members.append(Member(nm, t, form, bound=s[0]))
        else:
            members.append(Member(nm, t, form, sz, size_text=st))
    return Struct(name, members)


# ---------------------------------------------------------------- random values
FLOATS32 = [0.0, 1.0, -1.0, 1.5, -0.5, 2.0 ** 100, 3.0, 0.10000000149011612, 12345678.0, 2.0 ** -30, -123456.5]


def rand_scalar(rng, t):
    if t.lo is None:
        return rng.choice(FLOATS32)
    k = rng.random()
    if k < 0.2:
        return t.lo
    if k < 0.4:
        return t.hi
    if k < 0.5:
        return min(t.hi, 1)
    return rng.randint(t.lo, t.hi)


def rand_value(rng, t, maxlen=3):
    t = resolve(t)
    if isinstance(t, Scalar):
        return rand_scalar(rng, t)
    if isinstance(t, Enum):
        return rng.choice(t.members)[1]
    if isinstance(t, Union):
        a = rng.choice(t.arms)
        return (a.name, rand_value(rng, a.type, maxlen))
    v = {}
    sizers = {}
    for m in t.members:
        if m.form == EXT_ARR:
            if m.bound not in sizers:
                sizers[m.bound] = rng.randint(0, maxlen)
    for m in t.members:
        if m.form == PLAIN:
            if m.name in sizers:
                continue
            v[m.name] = rand_value(rng, m.type, maxlen)
        elif m.form == OPTIONAL:
            v[m.name] = rand_value(rng, m.type, maxlen) if rng.random() < 0.6 else None
        else:
            n = {FIXED_ARR: m.size, LIM_ARR: rng.randint(0, m.size) if m.size else 0,
                 EXT_ARR: sizers.get(m.bound)}.get(m.form)
            if n is None:
                n = rng.randint(0, maxlen)
            if m.type is BYTE:
                v[m.name] = bytes(rng.choice([0, 1, 9, 10, 13, 32, 34, 39, 65, 92, 127, 128, 255, rng.randrange(256)]) for _ in range(n))
            else:
                v[m.name] = [rand_value(rng, m.type, maxlen) for _ in range(n)]
    return v


def greedy_aligned(t, v):
    """True when no greedy tail is followed by padding (the claim's domain)."""
    t = resolve(t)
    if not isinstance(t, Struct) or stiffness(t) != UNLIMITED:
        return True
    fields = lower(t)
    e = Enc('<')
    for f, ba in zip(fields, block_alignments(fields)):
        e.pad_to(max(field_alignment(f), ba or 1), 0)
        if f is fields[-1]:
            if f.form == PLAIN and not greedy_aligned(f.type, v[f.name]):
                return False
        W._enc_field(f, v, e)
    return e.n % alignment(t) == 0


# ---------------------------------------------------------------- real messages
def fill(msg, t, v):
    """Assign spec value v to a real Python message through the public API."""
    t = resolve(t)
    if isinstance(t, Union):
        arm = union_arm(t, v)
        msg.discriminator = arm.name
        if isinstance(resolve(arm.type), (Struct, Union)):
            fill(getattr(msg, arm.name), arm.type, v[1])
        else:
            setattr(msg, arm.name, v[1])
        return
    for m in t.members:
        if m.name not in v:
            continue
        x = v[m.name]
        comp = isinstance(resolve(m.type), (Struct, Union))
        if m.form == PLAIN:
            if comp:
                fill(getattr(msg, m.name), m.type, x)
            else:
                setattr(msg, m.name, x)
        elif m.form == OPTIONAL:
            if x is None:
                setattr(msg, m.name, None)
            elif comp:
                setattr(msg, m.name, True)
                fill(getattr(msg, m.name), m.type, x)
            else:
                setattr(msg, m.name, x)
        elif m.type is BYTE:
            setattr(msg, m.name, x)
        else:
            arr = getattr(msg, m.name)
            if m.form == FIXED_ARR:
                for i, el in enumerate(x):
                    if comp:
                        fill(arr[i], m.type, el)
                    else:
                        arr[i] = el
            else:
                del arr[:]
                for el in x:
                    if comp:
                        fill(arr.add(), m.type, el)
                    else:
                        arr.append(el)


def read(msg, t):
    """Observable state of a real message as a spec value."""
    t = resolve(t)
    if isinstance(t, Union):
        for a in t.arms:
            if a.disc == int(msg.discriminator):
                x = getattr(msg, a.name)
                return (a.name, _readv(x, a.type))
        return ('?', int(msg.discriminator))
    v = {}
    bounds = set(m.bound for m in t.members if m.form == EXT_ARR)
    for m in t.members:
        if m.name in bounds:
            continue
        x = getattr(msg, m.name)
        if m.form == PLAIN:
            v[m.name] = _readv(x, m.type)
        elif m.form == OPTIONAL:
            v[m.name] = None if x is None else _readv(x, m.type)
        elif m.type is BYTE:
            v[m.name] = x
        else:
            v[m.name] = [_readv(el, m.type) for el in x]
    return v


def _readv(x, t):
    r = resolve(t)
    if isinstance(r, (Struct, Union)):
        return read(x, r)
    if isinstance(r, Enum):
        return int(x)
    return x


def default_value(t):
    t = resolve(t)
    if isinstance(t, Scalar):
        return 0 if t.lo is not None else 0.0
    if isinstance(t, Enum):
        return t.members[0][1]
    if isinstance(t, Union):
        return (t.arms[0].name, default_value(t.arms[0].type))
    v = {}
    bounds = set(m.bound for m in t.members if m.form == EXT_ARR)
    for m in t.members:
        if m.form == PLAIN:
            if m.name not in bounds:
                v[m.name] = default_value(m.type)
        elif m.form == OPTIONAL:
            v[m.name] = None
        elif m.form == FIXED_ARR:
            v[m.name] = b'\0' * m.size if m.type is BYTE else [default_value(m.type) for _ in range(m.size)]
        else:
            v[m.name] = b'' if m.type is BYTE else []
    return v


def structs(defs):
    return [d for d in defs if isinstance(d, Struct)]


def composites(defs):
    return [d for d in defs if isinstance(d, (Struct, Union))]
