"""ctypes view of the freshly built libraries and of the public constants."""
import ctypes as ct, glob, os, re, subprocess, sys
from . import build as B

u8p = ct.POINTER(ct.c_uint8)
VP = ct.c_void_p
I32 = ct.c_int32
U32 = ct.c_uint32
BYREF = ct.byref


class Consts:
    """K dot NAME; the names used in the given sources are compiled against /repo's headers once."""

    def __init__(self):
        self._v = {}

    def load(self, d, files):
        names = set()
        for f in files:
            names |= set(re.findall(r'\bK\.([A-Z][A-Za-z0-9_]+)', open(f).read()))
            for m in re.findall(r'#K: *([A-Za-z0-9_ ]+)', open(f).read()):
                names |= set(m.split())
        self._v = B.constants(d, names, headers())

    def __getattr__(self, n):
        try:
            return self.__dict__['_v'][n]
        except KeyError:
            raise AttributeError('constant %s was not extracted' % n)

    def get(self, n):
        return self._v[n]


K = Consts()


class Lib:
    def __init__(self):
        self.dir = None
        self._f = {}

    def open(self, d):
        self.dir = d
        self._libs = [ct.CDLL(os.path.join(d, 'libhitls_%s.so' % n), mode=ct.RTLD_GLOBAL)
                      for n in ('bsl', 'crypto', 'pki', 'tls', 'auth')]
        self._protos = prototypes(d)

    def __getattr__(self, name):
        if name.startswith('_') or name == 'dir':
            raise AttributeError(name)
        f = None
        for l in self._libs:
            try:
                f = getattr(l, name)
                break
            except AttributeError:
                continue
        if f is None:
            raise AttributeError('no symbol ' + name)
        pr = self._protos.get(name)
        if pr is None:
            raise AttributeError('no prototype for ' + name)
        f.restype = pr[0]
        if pr[2]:
            f.argtypes = None      # variadic
        else:
            f.argtypes = pr[1]
        self.__dict__[name] = f
        return f


L = Lib()

_INT = {1: ct.c_uint8, 2: ct.c_uint16, 4: ct.c_int32, 8: ct.c_uint64}
_KNOWN = {'int32_t': ct.c_int32, 'uint32_t': ct.c_uint32, 'int': ct.c_int, 'unsigned int': ct.c_uint,
          'uint8_t': ct.c_uint8, 'int8_t': ct.c_int8, 'uint16_t': ct.c_uint16, 'int16_t': ct.c_int16,
          'uint64_t': ct.c_uint64, 'int64_t': ct.c_int64, 'bool': ct.c_bool, '_Bool': ct.c_bool,
          'size_t': ct.c_size_t, 'long': ct.c_long, 'char': ct.c_char, 'void': None}


def headers():
    hs = []
    for p in B.incdirs()[1:]:
        hs += sorted(os.path.basename(x) for x in glob.glob(p + '/*.h'))
    first = ['bsl_types.h', 'crypt_types.h', 'hitls_type.h']
    return [h for h in first if h in hs] + [h for h in hs if h not in first]


EXTRA = []      # further headers (internal ones) a driver wants prototypes of: (dir, header)


def prototypes(d):
    """Prototypes of the public functions, read from /repo's headers through the preprocessor."""
    tmp = os.path.join(B.BUILD, 'proto_%d' % os.getpid())
    src = '#include <stddef.h>\n#include <stdint.h>\n#include <stdbool.h>\n'
    src += ''.join('#include "%s"\n' % h for h in headers() + [h for _, h in EXTRA])
    open(tmp + '.c', 'w').write(src)
    inc = ['-I' + i for i in B.incdirs()] + ['-I' + os.path.join(B.REPO, i) for i, _ in EXTRA]
    base = ['gcc', '-w'] + B.macros(d) + inc
    txt = subprocess.run(base + ['-E', '-P', tmp + '.c'], stdout=subprocess.PIPE, check=True).stdout.decode()
    txt = re.sub(r'__attribute__\s*\(\(.*?\)\)', ' ', txt)
    protos = {}
    unknown = set()
    for m in re.finditer(r'(?:^|[;}\n])\s*((?:[A-Za-z_][\w]*[\s\*]+)+)([A-Za-z_]\w*)\s*\(([^()]*)\)\s*;', txt):
        ret, name, args = m.group(1), m.group(2), m.group(3)
        ret = re.sub(r'\b(extern|const|static|inline|struct|enum)\b', ' ', ret)
        if 'typedef' in ret or 'return' in ret:
            continue
        al = []
        var = False
        if args.strip() not in ('', 'void'):
            for a in args.split(','):
                a = re.sub(r'\b(const|struct|enum|volatile)\b', ' ', a).strip()
                if a == '...':
                    var = True
                    continue
                if '*' in a or '[' in a:
                    al.append('*')
                else:
                    w = a.split()
                    t = ' '.join(w[:-1]) if len(w) > 1 and ' '.join(w) not in _KNOWN else ' '.join(w)
                    al.append(t)
                    if t not in _KNOWN:
                        unknown.add(t)
        r = '*' if '*' in ret else ' '.join(ret.split())
        if r != '*' and r not in _KNOWN:
            unknown.add(r)
        protos[name] = (r, al, var)
    src += '#include <stdio.h>\nint main(void){\n'
    for t in sorted(unknown):
        src += 'printf("%%s|%%d|%%d\\n","%s",(int)sizeof(%s),(int)__builtin_classify_type(*(%s*)8));\n' % (t, t, t)
    src += 'return 0;}\n'
    open(tmp + '.c', 'w').write(src)
    r = subprocess.run(base + [tmp + '.c', '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise B.BuildError('prototype probe\n' + r.stdout.decode()[:2000])
    kinds = {}
    for l in subprocess.run([tmp], stdout=subprocess.PIPE, check=True).stdout.decode().splitlines():
        t, sz, cl = l.split('|')
        kinds[t] = VP if int(cl) == 5 else _INT.get(int(sz), ct.c_int32)
    os.remove(tmp)
    os.remove(tmp + '.c')

    def cv(t):
        return VP if t == '*' else _KNOWN[t] if t in _KNOWN else kinds[t]
    return {n: (cv(r), [cv(a) for a in al], var) for n, (r, al, var) in protos.items()}


def P(x):
    """int address -> c_void_p (ctypes truncates plain ints to 32 bits)."""
    return VP(x) if x else VP(None)


def buf(data_or_len):
    if isinstance(data_or_len, int):
        return (ct.c_uint8 * max(data_or_len, 1))()
    b = bytes(data_or_len)
    return (ct.c_uint8 * max(len(b), 1)).from_buffer_copy(b if b else b'\0')


def init(files, d=None, eal=True):
    """build, load, initialise. `files` are the sources whose constants are needed."""
    if d is None:
        d = B.build()
    K.load(d, list(files) + [__file__])
    L.open(d)
    if eal:
        opts = K.CRYPT_EAL_INIT_ALL
        r = L.CRYPT_EAL_Init(opts)
        if r != 0:
            raise RuntimeError('CRYPT_EAL_Init %#x' % r)
    return d
