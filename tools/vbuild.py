"""Builds what the checks need from /repo's current working tree.

Every object is content-addressed by the compile command and the contents of its source and of every
header and proto of the repository and of /verif, so an object is never reused for changed code."""
import concurrent.futures
import glob
import hashlib
import os
import re
import subprocess
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, '.cache')
VP_INC = '/opt/vp/cmake/include'
LIBS = ['-lprotobuf', '-lgflags', '-lglog', '-lfmt', '-lpthread', '-ldl']

PROFILES = {
    # Sequential harnesses.
    'san': dict(cxx='clang++', flags=['-O1', '-g1', '-fno-omit-frame-pointer', '-DNDEBUG', '-D_GLIBCXX_ASSERTIONS',
                                      '-fsanitize=address,undefined', '-fno-sanitize=vptr,function,nonnull-attribute',
                                      '-fno-sanitize-recover=undefined'],
                link=['-fsanitize=address,undefined', '-fno-sanitize=vptr,function']),
    # Harnesses explored by mcrt: ThreadSanitizer's instrumentation without its runtime.
    'mcrt': dict(cxx='clang++', flags=['-O1', '-g1', '-DNDEBUG', '-D_GLIBCXX_EXTERN_TEMPLATE=0',
                                       '-fsanitize=thread', '-mllvm', '-tsan-instrument-func-entry-exit=0'],
                 link=['-rdynamic']),
    # Uninstrumented (fault injection, Python module, command line).
    'plain': dict(cxx='clang++', flags=['-O1', '-g1', '-DNDEBUG', '-fPIC'], link=['-rdynamic']),
    # Python extension module: the interpreter preloads gcc's AddressSanitizer runtime.
    'pysan': dict(cxx='g++', flags=['-O1', '-g1', '-fPIC', '-fno-omit-frame-pointer', '-DNDEBUG', '-D_GLIBCXX_ASSERTIONS',
                                    '-fsanitize=address'], link=['-fsanitize=address', '-shared']),
}


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)
    if r.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-8000:]))
    return r.stdout


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(hashlib.sha256(p).digest())
    return h.hexdigest()[:24]


def lib_sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, 'src')):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            if f.endswith('.cc') and not f.endswith('_test.cc'):
                rel = os.path.relpath(p, os.path.join(REPO, 'src'))
                if rel == 'main.cc' or rel.startswith('python/'):
                    continue
                out.append(p)
    return out


def python_sources():
    return sorted(glob.glob(os.path.join(REPO, 'src/python/*.cc')))


class Builder:
    def __init__(self):
        os.makedirs(CACHE, exist_ok=True)
        self._headers_hash = None
        self._prepare()

    # ------------------------------------------------------------ generated headers
    def _prepare(self):
        protos = sorted(glob.glob(os.path.join(REPO, 'src/proto/*.proto')))
        status = '/usr/include/google/protobuf/stubs/status.h'
        key = sha(read(status), *[p for q in protos for p in (os.path.basename(q), read(q))])
        self.gen = os.path.join(CACHE, 'gen-' + key)
        self.compat = os.path.join(self.gen, 'compat')
        if not os.path.exists(os.path.join(self.gen, 'done')):
            os.makedirs(self.gen, exist_ok=True)
            self._compat(status)
            for p in protos:
                run(['protoc', '-I' + REPO, '--cpp_out=' + self.gen, p])
            open(os.path.join(self.gen, 'done'), 'w').close()
        self.pb = sorted(glob.glob(os.path.join(self.gen, 'src/proto/*.pb.cc')))

    def _compat(self, status):
        # The same copy of the installed header that /opt/vp/cmake/CMakeLists.txt makes.
        s = read(status).decode()
        s = s.replace('  StatusCode code() const { return error_code_; }\n',
                      '  StatusCode code() const { return error_code_; }\n'
                      '  StatusCode error_code() const { return error_code_; }\n  static const Status OK;\n')
        codes = 'namespace error {\n'
        cmake = read('/opt/vp/cmake/CMakeLists.txt').decode()
        names = re.findall(r'"([A-Z_]+=k[A-Za-z]+)"', cmake) or [
            'OK=kOk', 'CANCELLED=kCancelled', 'UNKNOWN=kUnknown', 'INVALID_ARGUMENT=kInvalidArgument',
            'NOT_FOUND=kNotFound', 'OUT_OF_RANGE=kOutOfRange', 'INTERNAL=kInternal', 'DATA_LOSS=kDataLoss']
        for n in names:
            a, b = n.split('=')
            codes += 'constexpr StatusCode %s = StatusCode::%s;\n' % (a, b)
        codes += '}  // namespace error\n\n}  // namespace util\n'
        s = s.replace('}  // namespace util\n', codes)
        d = os.path.join(self.compat, 'google/protobuf/stubs')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, 'status.h'), 'w') as f:
            f.write(s)

    def includes(self):
        return ['-I' + self.compat, '-I' + VP_INC, '-I' + REPO, '-I' + self.gen,
                '-I' + os.path.join(VERIF, 'mcrt'), '-I' + os.path.join(VERIF, 'harness')]

    def headers_hash(self):
        if self._headers_hash is None:
            parts = []
            for base in (os.path.join(REPO, 'src'), os.path.join(REPO, 'third_party'),
                         os.path.join(VERIF, 'harness'), os.path.join(VERIF, 'mcrt'), self.gen):
                for root, dirs, files in os.walk(base):
                    dirs.sort()
                    for f in sorted(files):
                        if f.endswith(('.h', '.hpp', '.inc')):
                            p = os.path.join(root, f)
                            parts += [p, read(p)]
            self._headers_hash = sha(*parts)
        return self._headers_hash

    # ------------------------------------------------------------ compiling
    def compile(self, src, profile, extra=(), instrument=True):
        p = PROFILES[profile]
        flags = list(p['flags'])
        if not instrument:
            flags = [f for f in flags if not f.startswith('-fsanitize=thread')]
            flags = [f for i, f in enumerate(flags) if f != '-mllvm' and not f.startswith('-tsan-')]
        cmd = [p['cxx'], '-std=gnu++14', '-w'] + flags + list(extra) + self.includes()
        key = sha(' '.join(cmd), src, read(src), self.headers_hash())
        obj = os.path.join(CACHE, 'obj', key + '.o')
        if not os.path.exists(obj):
            os.makedirs(os.path.dirname(obj), exist_ok=True)
            tmp = obj + '.%d.tmp' % os.getpid()
            run(cmd + ['-c', src, '-o', tmp])
            os.replace(tmp, obj)
        return obj

    def compile_all(self, jobs):
        """jobs: list of (src, profile, extra, instrument)."""
        with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
            return list(ex.map(lambda j: self.compile(*j), jobs))

    def lib_jobs(self, profile, only=None):
        jobs = [(p, profile, (), False) for p in self.pb]
        jobs += [(s, profile, (), True) for s in lib_sources()
                 if only is None or any(o in s for o in only)]
        jobs.append(('/opt/vp/cmake/protobuf_status_ok.cc', profile, (), True))
        return jobs

    def link(self, objs, profile, name, extra=(), libs=None):
        p = PROFILES[profile]
        cmd = [p['cxx']] + objs + p['link'] + list(extra) + (LIBS if libs is None else libs)
        key = sha(' '.join(cmd))
        out = os.path.join(CACHE, 'bin', name + '-' + key)
        if not os.path.exists(out):
            os.makedirs(os.path.dirname(out), exist_ok=True)
            tmp = out + '.%d.tmp' % os.getpid()
            run(cmd + ['-o', tmp])
            os.replace(tmp, out)
        return out

    def rename_main(self, obj):
        """The command-line program's main, callable as GbdtMain."""
        out = obj[:-2] + '-main.o'
        if not os.path.exists(out):
            tmp = out + '.%d.tmp' % os.getpid()
            run(['objcopy', '--redefine-sym', 'main=GbdtMain', obj, tmp])
            os.replace(tmp, out)
        return out

    def harness(self, src, profile, extra_flags=(), only=None, link_extra=(), repo_extra=()):
        """Builds one executable from a harness in /verif/harness plus the repository's library."""
        src = os.path.join(VERIF, 'harness', src)
        jobs = [(src, profile, tuple(extra_flags), True)]
        if profile == 'mcrt':
            jobs.append((os.path.join(VERIF, 'mcrt/mcrt.cc'), profile, (), False))
        jobs += [(os.path.join(REPO, r), profile, (), True) for r in repo_extra]
        jobs += self.lib_jobs(profile, only)
        try:
            objs = self.compile_all(jobs)
            for i, j in enumerate(jobs):
                if os.path.basename(j[0]) == 'main.cc':
                    objs[i] = self.rename_main(objs[i])
            return self.link(objs, profile, os.path.basename(src)[:-3], link_extra)
        except BuildError:
            if only is None:
                raise
            return self.harness(os.path.basename(src), profile, extra_flags, None, link_extra, repo_extra)  # whole library

    def pymodule(self):
        """Builds the Python extension module; returns its path."""
        inc = subprocess.check_output(['/usr/bin/python3', '-c', 'import sysconfig; print(sysconfig.get_paths()["include"])'],
                                      universal_newlines=True).strip()
        jobs = [(p, 'pysan', ('-I' + inc, '-fvisibility=hidden'), True) for p in python_sources()]
        jobs += self.lib_jobs('pysan')
        return self.link(self.compile_all(jobs), 'pysan', 'libgbdt')

    def preload(self):
        # libstdc++ too: AddressSanitizer looks up its __cxa_throw when it starts.
        return ':'.join(os.path.realpath(subprocess.check_output(['gcc', '-print-file-name=' + lib], universal_newlines=True).strip())
                        for lib in ('libasan.so', 'libstdc++.so'))
