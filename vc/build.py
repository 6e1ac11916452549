"""Build steps: LLVM IR of the real translation units, and the replay harnesses."""
import concurrent.futures
import fcntl
import glob
import hashlib
import os
import re
import subprocess
import time

REPO = os.environ.get('VERIF_REPO', '/repo')
LIB = os.path.join(REPO, 'libamqpprox')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(HERE, 'build')
os.makedirs(OUT, exist_ok=True)
JOBS = int(os.environ.get('VERIF_JOBS', '8'))


PROBE_ERRORS = []


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


_hdr = {}


def headers_key():
    if 'k' not in _hdr:
        fs = sorted(glob.glob(LIB + '/*.h') + glob.glob(REPO + '/authproto/*.proto'))
        _hdr['k'] = sha(*[os.path.basename(f).encode() + b'\0' + read(f) for f in fs])
    return _hdr['k']


def run(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stderr[-4000:]))
    return p.stdout


def authproto():
    d = os.path.join(OUT, 'authproto-' + headers_key())
    if not os.path.exists(d + '/.done'):
        os.makedirs(d, exist_ok=True)
        protos = sorted(glob.glob(REPO + '/authproto/*.proto'))
        run(['protoc', '--cpp_out=' + d, '-I', REPO + '/authproto'] + protos)
        open(d + '/.done', 'w').close()
    return d


def all_tus():
    return sorted(os.path.basename(f)[:-4] for f in glob.glob(LIB + '/*.cpp'))


def tu_path(t):
    return t if t.startswith('/') else os.path.join(LIB, t + '.cpp')


def pmap(f, items):
    with concurrent.futures.ThreadPoolExecutor(JOBS) as e:
        return list(e.map(f, items))


def ir_one(t):
    inc = authproto()
    src = tu_path(t)
    flags = ['-std=c++17', '-O1', '-g0', '-DNDEBUG', '-Xclang', '-disable-llvm-passes', '-DBOOST_ALL_DYN_LINK',
             '-I' + inc, '-I' + LIB, '-S', '-emit-llvm']
    text = read(src)
    if t.startswith(HERE):
        for f in re.findall(rb'#include <(amqpprox_\w+\.cpp)>', text):      # a source file taken in for its local classes
            f = os.path.join(LIB, f.decode())
            text += read(f) if os.path.exists(f) else b'absent'
        flags += ['-fno-access-control', '-I' + os.path.join(HERE, 'vc', 'probe'), '-DVCKEY="%s"' % sha(read(os.path.join(HERE, 'vc', 'probe', 'vc.h')))]
    o = os.path.join(OUT, 'ir-%s-%s.ll' % (os.path.basename(t), sha(headers_key(), text, ' '.join(flags))))
    if not os.path.exists(o):
        tmp = '%s.%d.tmp' % (o, os.getpid())
        run(['clang++'] + flags + [src, '-o', tmp])
        # promote locals to values, drop unreachable blocks; nothing is inlined or reordered
        run(['opt', '-passes=sroa,simplifycfg', '-S', tmp, '-o', tmp + '2'])
        os.remove(tmp)
        os.rename(tmp + '2', o)
    return o


def emit_ir(tus):
    """linked module of the given translation units"""
    authproto()
    tus = [t for t in dict.fromkeys(tus) if os.path.exists(tu_path(t))]
    del PROBE_ERRORS[:]

    def one(t):
        try:
            return ir_one(t)
        except BuildError as e:
            if not t.startswith(HERE):
                raise
            # a probe that no longer fits the classes: its contracts become undecided, the others stay
            PROBE_ERRORS.append('%s: %s' % (os.path.basename(t), str(e)[-600:]))
            return None
    lls = [x for x in pmap(one, tus) if x]
    o = os.path.join(OUT, 'mod-%s.ll' % sha(*lls))
    if not os.path.exists(o):
        tmp = '%s.%d.tmp' % (o, os.getpid())
        run(['llvm-link', '-S', '-o', tmp] + lls)
        os.rename(tmp, o)
    return o


SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr,nonnull-attribute,pointer-overflow,returns-nonnull-attribute']
LIBS = ['-lboost_log', '-lboost_timer', '-lboost_chrono', '-lboost_thread', '-lboost_system', '-lboost_filesystem', '-lssl', '-lcrypto', '-lprotobuf', '-lpthread']


def obj_one(t, flags):
    inc = authproto()
    src = tu_path(t)
    o = os.path.join(OUT, 'obj-%s-%s.o' % (os.path.basename(t).replace('.cpp', ''),
                                           sha(headers_key(), read(src), ' '.join(flags))))
    if not os.path.exists(o):
        tmp = '%s.%d.tmp.o' % (o, os.getpid())
        run(['clang++', '-std=c++17', '-DNDEBUG', '-DBOOST_ALL_DYN_LINK', '-w', '-I' + inc, '-I' + LIB,
             '-I' + os.path.join(HERE, 'harness')] + flags + ['-c', src, '-o', tmp])
        os.rename(tmp, o)
    return o


def build_harness(src, tus, sanitize=True, opt='-O1'):
    """link /verif/harness/<src> with the real objects of the given translation units"""
    flags = [opt, '-g1'] + (SAN if sanitize else [])
    h = os.path.join(HERE, 'harness', src)
    hdrs = sorted(glob.glob(os.path.join(HERE, 'harness', '*.h')))
    flags_h = flags + ['-DHKEY="%s"' % sha(*[read(x) for x in hdrs])]

    def link(tlist):
        objs = pmap(lambda a: obj_one(*a), [(h, flags_h)] + [(t, flags) for t in tlist])
        if any(t == 'AUTHPROTO' for t in tlist):
            pass
        exe = os.path.join(OUT, 'h-%s-%s' % (src.replace('.cpp', ''), sha(*objs)))
        if not os.path.exists(exe):
            tmp = '%s.%d.tmp' % (exe, os.getpid())
            run(['clang++'] + (SAN if sanitize else []) + objs + ['-o', tmp] + LIBS)
            os.rename(tmp, exe)
        return exe
    tl = []
    for t in tus:
        if t == 'AUTHPROTO':
            tl += sorted(glob.glob(authproto() + '/*.cc'))
        elif os.path.exists(tu_path(t)):
            tl.append(t)
    try:
        return link(tl)
    except BuildError as e:
        if 'undefined reference' not in str(e) and 'undefined symbol' not in str(e):
            raise
        # sources were moved about: link everything
        return link(all_tus() + sorted(glob.glob(authproto() + '/*.cc')))
