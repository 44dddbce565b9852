"""Build and drive generated C++ full codecs under sanitizers."""
import os
import shutil
import subprocess
import tempfile

INC = os.path.join(os.environ.get('PROPHY_REPO', '/repo'), 'prophy_cpp/include')

DRIVER_HEAD = r'''
#include <new>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <string>
#include <iostream>
#include "%(name)s.ppf.hpp"
static size_t g_peak, g_cur_max;
void* operator new(size_t n) { if (n > g_cur_max) g_cur_max = n; g_peak += n; if (n > (size_t(1) << 28)) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

static std::string hex(const uint8_t* p, size_t n)
{
    static const char* d = "0123456789abcdef"; std::string s;
    for (size_t i = 0; i < n; ++i) { s += d[p[i] >> 4]; s += d[p[i] & 15]; }
    return s.empty() ? std::string("-") : s;
}

template <class T> struct over { static void fill(T&) {} };

template <class T, prophy::endianness E>
static void run(const uint8_t* in, size_t n, bool overfill)
{
    uint8_t* buf = static_cast<uint8_t*>(malloc(n ? n : 1));
    if (n) memcpy(buf, in, n);
#if defined(__has_feature)
#endif
    T x;
    g_peak = 0; g_cur_max = 0;
    bool ok; const char* exc = "";
    try { ok = x.template decode<E>(buf, n); } catch (const std::exception& e) { ok = false; exc = "EXC"; }
    size_t peak = g_peak;
    free(buf);
    printf("%%d%%s %%zu", int(ok), exc, peak);
    if (ok)
    {
        if (overfill) over<T>::fill(x);
        size_t bs = x.get_byte_size();
        size_t cap = bs;
        uint8_t* out = static_cast<uint8_t*>(malloc(cap ? cap : 1));
        memset(out, 0, cap);
        printf(" %%zu", bs); fflush(stdout);
        size_t r = x.template encode<E>(out);
        std::vector<uint8_t> v = x.template encode<E>();
        std::string t = x.print();
        printf(" %%zu %%s %%s %%d %%s", r, hex(out, cap).c_str(), hex(v.data(), v.size()).c_str(), int(T::encoded_byte_size), hex((const uint8_t*)t.data(), t.size()).c_str());
        free(out);
    }
    printf("\n"); fflush(stdout);
}
typedef void (*fn)(const uint8_t*, size_t, bool);
'''


def over_code(defs):
    """Specialisations that fill every limited array of a type beyond its limit."""
    from spec import schema as S
    out = []
    for d in S.structs(defs):
        body = ''
        for m in d.members:
            if m.form == S.LIM_ARR:
                body += ' x.%s.resize(%d);' % (m.name, m.size + 3)
        if body:
            out.append('template <> struct over<prophy::generated::%s> { static void fill(prophy::generated::%s& x) {%s } };' % (d.name, d.name, body))
    return '\n'.join(out) + '\n'


class Build(object):
    def __init__(self, defs, text, outs, name='sch', cxx='clang++', san=True, opt='-O0'):
        from spec import schema as S
        self.defs = defs
        self.types = S.composites(defs)
        self.index = dict((t.name, i) for i, t in enumerate(self.types))
        self.dir = tempfile.mkdtemp(prefix='vfcpp')
        for fn, src in outs.items():
            with open(os.path.join(self.dir, fn), 'w') as f:
                f.write(src)
        with open(os.path.join(self.dir, 'main.cpp'), 'w') as f:
            f.write(DRIVER_HEAD % {'name': name})
            f.write(over_code(defs))
            f.write('static fn table[][3] = {\n')
            for t in self.types:
                f.write('{ run<prophy::generated::%s, prophy::native>, run<prophy::generated::%s, prophy::little>, run<prophy::generated::%s, prophy::big> },\n' % ((t.name,) * 3))
            f.write('};\n')
            f.write(r'''
int main()
{
    std::string line;
    while (std::getline(std::cin, line))
    {
        unsigned t; char e; int o; int at = 0;
        sscanf(line.c_str(), "%u %c %d %n", &t, &e, &o, &at);
        std::vector<uint8_t> v;
        for (size_t i = at; i + 1 < line.size(); i += 2) { unsigned b; sscanf(line.c_str() + i, "%2x", &b); v.push_back(b); }
        int ei = e == 'n' ? 0 : e == '<' ? 1 : 2;
        table[t][ei](v.data(), v.size(), o);
    }
    return 0;
}
''')
        self.cmd = [cxx, '-std=c++11', opt, '-w', '-I' + INC, '-I' + self.dir]
        if san:
            self.cmd += ['-g1', '-fsanitize=address,undefined', '-fno-sanitize=enum', '-fno-sanitize-recover=all']
        self.cmd += [os.path.join(self.dir, 'main.cpp'), os.path.join(self.dir, name + '.ppf.cpp'), '-o', os.path.join(self.dir, 'drv')]
        self.proc = None

    def compile(self):
        r = subprocess.run(self.cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        self.log = r.stdout
        return r.returncode == 0

    def start(self):
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=0')
        self.err = open(os.path.join(self.dir, 'err'), 'w')
        self.proc = subprocess.Popen([os.path.join(self.dir, 'drv')], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                     universal_newlines=True, env=env)

    def batch(self, cmds, timeout=300):
        """cmds: list of (type, endian, over, data).  Returns list of result dicts (or {'crash': text})."""
        res = []
        todo = list(cmds)
        crashes = 0
        while todo:
            self.start()
            inp = ''.join('%d %s %d %s\n' % (self.index[t], e, o, d.hex()) for t, e, o, d in todo)
            try:
                out, _ = self.proc.communicate(inp, timeout=timeout)
            except subprocess.TimeoutExpired:
                self.proc.kill()
                out, _ = self.proc.communicate()
            self.err.close()
            lines = out.split('\n')
            full = lines[:-1]
            for l in full:
                res.append(parse(l))
            todo = todo[len(full):]
            if todo:
                with open(os.path.join(self.dir, 'err')) as f:
                    res.append({'crash': f.read()[:3000], 'partial': lines[-1]})
                todo = todo[1:]
                crashes += 1
                if crashes > 50:
                    res += [{'skipped': True}] * len(todo)
                    break
        return res

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def parse(l):
    p = l.split(' ')
    r = {'ok': p[0].startswith('1'), 'exc': p[0].endswith('EXC'), 'peak': int(p[1])}
    if r['ok']:
        un = lambda h: b'' if h == '-' else bytes.fromhex(h)
        r.update(byte_size=int(p[2]), ret=int(p[3]), ptr=un(p[4]), vec=un(p[5]), static=int(p[6]), text=un(p[7]).decode('latin1'))
    return r
