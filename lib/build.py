"""Build openHiTLS from /repo's working tree (out of tree) and extract the constants the drivers use."""
import fcntl, hashlib, json, os, re, subprocess, sys

REPO = '/repo'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('HITLS_BUILD') or os.path.join(VERIF, '.build')

OPTS = """-DHITLS_BUILD_GEN_INFO=ON -DHITLS_BUILD_PROFILE=full -DHITLS_CRYPTO_RAND_CB=ON
 -DHITLS_EAL_INIT_OPTS=9 -DHITLS_CRYPTO_ASM_CHECK=ON
 -DHITLS_CRYPTO_ENTROPY=ON -DHITLS_CRYPTO_ENTROPY_DEVRANDOM=ON -DHITLS_CRYPTO_ENTROPY_GETENTROPY=ON
 -DHITLS_CRYPTO_ENTROPY_SYS=ON -DHITLS_CRYPTO_ENTROPY_HARDWARE=ON -DHITLS_CRYPTO_ENTROPY_NS_CPUJITTER=ON
 -DHITLS_CRYPTO_DRBG_GM=ON -DHITLS_CRYPTO_ACVP_TESTS=ON -DHITLS_CRYPTO_DSA_GEN_PARA=ON
 -DHITLS_CRYPTO_HSS_LMS=ON -DHITLS_BSL_UIO_SCTP=OFF -DHITLS_BUILD_STATIC=OFF -DHITLS_BUILD_SHARED=ON
 -DHITLS_CRYPTO_SP800_STRICT_CHECK=ON -DHITLS_SM2_PRECOMPUTE_512K_TBL=OFF
 -DHITLS_ASM_X8664=ON -DHITLS_PLATFORM_ENDIAN=little -DHITLS_PKI_X509_CRL_LITE=ON
 -DHITLS_PKI_X509_VFY_CRL_LITE=ON -D_HITLS_COMPILE_OPTIONS_DEL=-O2
 -DHITLS_TLS_FEATURE_SM_TLS13=ON -DHITLS_CRYPTO_CMVP=ON""".split()


class BuildError(Exception):
    pass


def _run(cmd, cwd, log):
    with open(log, 'ab') as f:
        f.write(('\n$ ' + ' '.join(cmd) + '\n').encode())
        f.flush()
        r = subprocess.run(cmd, cwd=cwd, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    if r.returncode != 0:
        tail = open(log, 'rb').read()[-3000:].decode(errors='replace')
        raise BuildError('build step failed: %s\n%s' % (' '.join(cmd), tail))


def build(variant="std", extra_c="-O1", opts=OPTS):
    """(Re)build the shared libraries; returns the directory that holds them."""
    if os.environ.get('HITLS_LIBDIR'):
        return os.environ['HITLS_LIBDIR']
    d = os.path.join(BUILD, variant)
    os.makedirs(d, exist_ok=True)
    lock = open(os.path.join(BUILD, variant + '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    log = os.path.join(BUILD, variant + '.log')
    open(log, 'wb').close()
    try:
        # the options must not be configured over an old cache (it yields another feature set)
        c = os.path.join(d, 'CMakeCache.txt')
        if os.path.exists(c):
            os.remove(c)
        _run(['cmake', '-G', 'Ninja'] + opts + ['-DCMAKE_C_FLAGS=' + extra_c, REPO], d, log)
        _run(['ninja'], d, log)
        return d
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def incdirs():
    out = []
    for p in ('include', 'include/bsl', 'include/crypto', 'include/tls', 'include/pki', 'include/auth'):
        q = os.path.join(REPO, p)
        if os.path.isdir(q):
            out.append(q)
    sec = os.path.join(REPO, 'platform/Secure_C/include')
    if os.path.isdir(sec):
        out.append(sec)
    return out


def macros(d):
    p = os.path.join(d, 'macros.txt')
    if not os.path.exists(p):
        return []
    return [x for x in open(p).read().split() if x.startswith('-D')]


def constants(d, names, headers, sizes=()):
    """Compile a small C program against /repo's public headers that prints each constant."""
    names = sorted(set(names))
    src = ['#include <stdio.h>', '#include <stddef.h>', '#include <stdint.h>', '#include <stdbool.h>']
    src += ['#include "%s"' % h for h in headers]
    src.append('int main(void){')
    for n in names:
        src.append('printf("%s %%lld\\n",(long long)(%s));' % (n, n))
    for n in sizes:
        src.append('printf("sizeof:%s %%lld\\n",(long long)sizeof(%s));' % (n, n))
    src.append('return 0;}')
    text = '\n'.join(src)
    os.makedirs(os.path.join(BUILD, 'const'), exist_ok=True)
    base = os.path.join(BUILD, 'const', 'c_%s_%d' % (hashlib.sha1(text.encode()).hexdigest()[:12], os.getpid()))
    open(base + '.c', 'w').write(text)
    cmd = ['gcc', '-w', '-O0'] + macros(d) + ['-I' + i for i in incdirs()] + [base + '.c', '-o', base]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError('constant extraction failed\n' + r.stdout.decode(errors='replace')[:3000])
    out = subprocess.run([base], stdout=subprocess.PIPE, check=True).stdout.decode()
    os.remove(base)
    os.remove(base + '.c')
    res = {}
    for l in out.splitlines():
        k, v = l.rsplit(' ', 1)
        res[k] = int(v)
    return res


def shim(d, name, srcs, extra=()):
    """Build a small C helper library (shim directory) against the built libraries."""
    out = os.path.join(BUILD, 'shim_%s_%s_%d.so' % (os.path.basename(d), name, os.getpid()))
    cmd = ['gcc', '-w', '-O1', '-g', '-fPIC', '-shared'] + macros(d) + ['-I' + i for i in incdirs()] + list(extra)
    cmd += [os.path.join(VERIF, 'shim', s) for s in srcs] + ['-o', out]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError('shim %s failed\n%s' % (name, r.stdout.decode(errors='replace')[:3000]))
    return out


if __name__ == '__main__':
    print(build())
