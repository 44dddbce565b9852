"""Build and drive generated raw C++ headers: member offsets, sizes and in-place swap."""
import os
import shutil
import subprocess
import tempfile

from spec import schema as S
from spec import wire as W

INC = os.path.join(os.environ.get('PROPHY_REPO', '/repo'), 'prophy_cpp/include')


def parts(fields, block_align):
    """[(part index 1.., [fields], first offset index)]"""
    res = [[]]
    for i, (f, ba) in enumerate(zip(fields, block_align)):
        if ba is not None:
            res.append([])
        res[-1].append(i)
    return res


def expected_offsets(t):
    """{path: offset} for a struct or union, as the raw header should have them."""
    t = W.resolve(t)
    res = {}
    if isinstance(t, W.Union):
        res['discriminator'] = 0
        for a in t.arms:
            res[a.name] = W.alignment(t)
        return res
    lay = W.layout(t)
    for pi, idx in enumerate(parts(lay.fields, lay.block_align)):
        base = lay.offsets[idx[0]] if idx else 0
        if pi == 0:
            base = 0
        pre = '' if pi == 0 else 'part%d:' % (pi + 1)
        for i in idx:
            f = lay.fields[i]
            off = lay.offsets[i] - base
            if f.form == W.OPTIONAL:
                res[pre + 'has_' + f.name] = off
                res[pre + f.name] = off + max(4, W.alignment(f.type))
            else:
                res[pre + f.name] = off
    return res


HEAD = r'''
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <string>
#include <vector>
#include <iostream>
#include "%(name)s.pp.hpp"
static unsigned char area[1 << 16] __attribute__((aligned(16)));
typedef void (*ofn)();
typedef size_t (*sfn)(void*);
template <class T> size_t sw(void* p) { T* q = prophy::swap(static_cast<T*>(p)); return reinterpret_cast<char*>(q) - static_cast<char*>(p); }
'''

MAIN = r'''
int main()
{
    std::string line;
    while (std::getline(std::cin, line))
    {
        unsigned t; char c; int at = 0;
        sscanf(line.c_str(), "%u %c %n", &t, &c, &at);
        if (c == 'o') { otable[t](); printf("\n"); }
        else
        {
            std::vector<unsigned char> v;
            for (size_t i = at; i + 1 < line.size(); i += 2) { unsigned b; sscanf(line.c_str() + i, "%2x", &b); v.push_back(b); }
            size_t n = v.size() + 64;
            unsigned char* buf = static_cast<unsigned char*>(aligned_alloc(16, (n + 15) / 16 * 16));
            memset(buf, 0xA5, n);
            memcpy(buf + 32, v.data(), v.size());
            size_t r = stable[t](buf + 32);
            printf("%zd ", r);
            for (size_t i = 0; i < n; ++i) printf("%02x", buf[i]);
            printf("\n");
            free(buf);
        }
        fflush(stdout);
    }
}
'''


class Raw(object):
    def __init__(self, defs, outs, name='sch', cxx='g++', san=()):
        self.types = S.composites(defs)
        self.index = dict((t.name, i) for i, t in enumerate(self.types))
        self.dir = tempfile.mkdtemp(prefix='vfraw')
        for fn, src in outs.items():
            with open(os.path.join(self.dir, fn), 'w') as f:
                f.write(src)
        with open(os.path.join(self.dir, 'main.cpp'), 'w') as f:
            f.write(HEAD % {'name': name})
            for i, t in enumerate(self.types):
                f.write('static void o%d() { %s* p = (%s*)area; printf("%%zu", sizeof(%s));\n' % (i, t.name, t.name, t.name))
                for path in sorted(expected_offsets(t)):
                    if ':' in path:
                        part, fld = path.split(':')
                        f.write('{ %s::%s* q = (%s::%s*)area; printf(" %%zu", size_t((char*)&q->%s - (char*)q)); }\n' % (t.name, part, t.name, part, fld))
                    else:
                        f.write('printf(" %%zu", size_t((char*)&p->%s - (char*)p));\n' % path)
                f.write('}\n')
            f.write('static ofn otable[] = {%s};\n' % ', '.join('o%d' % i for i in range(len(self.types))))
            f.write('static sfn stable[] = {%s};\n' % ', '.join('sw<%s>' % t.name for t in self.types))
            f.write(MAIN)
        self.cmd = [cxx, '-std=c++11', '-O1', '-w', '-fno-strict-aliasing', '-I' + INC, '-I' + self.dir] + list(san) + [
            os.path.join(self.dir, 'main.cpp'), os.path.join(self.dir, name + '.pp.cpp'), '-o', os.path.join(self.dir, 'drv')]

    def compile(self):
        r = subprocess.run(self.cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        self.log = r.stdout
        return r.returncode == 0

    def run(self, cmds, timeout=200):
        """cmds: ('o', type) | ('s', type, data) -> list of results (None where the driver died)"""
        inp = ''.join('%d %s %s\n' % (self.index[c[1]], c[0], c[2].hex() if len(c) > 2 else '') for c in cmds)
        p = subprocess.run([os.path.join(self.dir, 'drv')], input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, timeout=timeout)
        res = []
        for c, l in zip(cmds, p.stdout.split('\n')):
            w = l.split()
            if not w:
                break
            if c[0] == 'o':
                names = sorted(expected_offsets(self.types[self.index[c[1]]]))
                res.append((int(w[0]), dict(zip(names, map(int, w[1:])))))
            else:
                buf = bytes.fromhex(w[1])
                res.append((int(w[0]), buf[:32], buf[32:-32], buf[-32:]))
        return res + [None] * (len(cmds) - len(res))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def swap_expectation(t, v):
    """(foreign bytes, checked prefix length, native bytes, returned offset)"""
    big, little = W.encode_bytes(t, v, '>'), W.encode_bytes(t, v, '<')
    if W.stiffness(t) != W.UNLIMITED:
        return big, len(big), little, len(big)
    fields = W.lower(t)
    e = W.Enc('<')
    for f, ba in zip(fields, W.block_alignments(fields)):
        e.pad_to(max(W.field_alignment(f), ba or 1), 0)
        if f is fields[-1]:
            break
        W._enc_field(f, v, e)
    return big, e.n, little, e.n


def narrowing_parts(t):
    """Known finding C09: a part other than the first is followed by a less aligned part."""
    t = W.resolve(t)
    if isinstance(t, W.Union):
        return any(narrowing_parts(a.type) for a in t.arms)
    if not isinstance(t, W.Struct):
        return False
    aligns = [a for a in W.layout(t).block_align if a is not None]
    return any(b < a for a, b in zip(aligns, aligns[1:])) or any(narrowing_parts(m.type) for m in t.members)
