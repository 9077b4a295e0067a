"""Builds the extractor if needed and extracts the program of /repo's working tree.

The extraction is keyed by the content of the analysed sources, so every run
looks at /repo as it is now.
"""
import concurrent.futures
import fcntl
import hashlib
import json
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('JOM_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
LLVM = '/usr/lib/llvm-18'

WINE = (
    '-fshort-wchar -DWINE_UNICODE_NATIVE -D_REENTRANT -fPIC -DWIN64 -D_WIN64 -D__WIN64 -D__WIN64__ '
    '-DWIN32 -D_WIN32 -D__WIN32 -D__WIN32__ -D__WINNT -D__WINNT__ '
    '-D__stdcall=__attribute__((ms_abi)) -D__cdecl=__stdcall -D__fastcall=__stdcall -D_stdcall=__stdcall '
    '-D_cdecl=__cdecl -D_fastcall=__fastcall -D__declspec(x)=__declspec_##x '
    '-D__declspec_align(x)=__attribute__((aligned(x))) -D__declspec_allocate(x)=__attribute__((section(x))) '
    '-D__declspec_deprecated=__attribute__((deprecated)) -D__declspec_dllimport=__attribute__((dllimport)) '
    '-D__declspec_dllexport=__attribute__((dllexport)) -D__declspec_naked=__attribute__((naked)) '
    '-D__declspec_noinline=__attribute__((noinline)) -D__declspec_noreturn=__attribute__((noreturn)) '
    '-D__declspec_nothrow=__attribute__((nothrow)) -D__declspec_novtable=__attribute__(()) '
    '-D__declspec_selectany=__attribute__((weak)) -D__declspec_thread=__thread '
    '-D__int8=char -D__int16=short -D__int32=int -D__int64=long -D__WINE__ '
    '-isystem /usr/include/wine/wine/windows -idirafter /usr/include/wine').split(' ')

QT = ('-DQT_CORE_LIB -DQT_NO_DEBUG -isystem /usr/include/x86_64-linux-gnu/qt5 '
      '-isystem /usr/include/x86_64-linux-gnu/qt5/QtCore '
      '-isystem /usr/lib/x86_64-linux-gnu/qt5/mkspecs/linux-g++ -w '
      '-I/opt/vp/winelib/include -include msvc_names.h -DNDEBUG '
      '-DQT_ANNOTATE_ACCESS_SPECIFIER(x)=__attribute__((annotate(#x)))').split(' ')

LIB = '-DQT_NO_CAST_FROM_ASCII -DQT_NO_CAST_TO_ASCII -DUNICODE'.split(' ')
APP = '-DJOM_VERSION_MAJOR=1 -DJOM_VERSION_MINOR=1 -DJOM_VERSION_PATCH=7'.split(' ')


class AnalysisError(Exception):
    """The analysis cannot give an answer (not a verdict on the property)."""


def _sha(data):
    return hashlib.sha256(data).hexdigest()


def tool():
    """Path of the extractor binary, compiled on demand."""
    os.makedirs(CACHE, exist_ok=True)
    src = os.path.join(VERIF, 'extract', 'jomex.cpp')
    key = _sha(open(src, 'rb').read())[:16]
    exe = os.path.join(CACHE, 'jomex-' + key)
    if os.path.exists(exe):
        return exe
    with open(os.path.join(CACHE, 'build.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        tmp = exe + '.tmp'
        cmd = ['/usr/bin/g++', '-O1', '-fno-rtti', '-std=c++17', '-w', '-I' + LLVM + '/include', src, '-o', tmp,
               LLVM + '/lib/libclang-cpp.so.18.1', LLVM + '/lib/libLLVM-18.so']
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise AnalysisError('building the extractor failed:\n' + r.stdout.decode(errors='replace')[-4000:])
        os.rename(tmp, exe)
    return exe


def units():
    """The translation units that the build compiles (CMakeLists.txt of each part)."""
    res = []
    for part, flags in (('jomlib', LIB), ('app', APP)):
        d = os.path.join(REPO, 'src', part)
        cm = open(os.path.join(d, 'CMakeLists.txt')).read()
        cm = re.sub(r'#.*', '', cm)
        names = sorted(set(re.findall(r'[\w./-]+\.cpp\b', cm)))
        for n in names:
            p = os.path.join(d, n)
            if os.path.exists(p):
                res.append((p, flags))
    if not res:
        raise AnalysisError('no translation units found')
    return res


def _files():
    src = os.path.join(REPO, 'src')
    r = {}
    for root, dirs, files in sorted(os.walk(src)):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(('.cpp', '.h', '.inc', '.txt', '.g', '.l')):
                p = os.path.join(root, f)
                r[os.path.relpath(p, src)] = open(p, 'rb').read()
    return r


def _one(args):
    exe, path, flags, key = args
    rel = os.path.relpath(path, os.path.join(REPO, 'src'))
    out = os.path.join(CACHE, 'unit-%s.json' % key)
    if os.path.exists(out):
        try:
            return rel, json.load(open(out))
        except ValueError:
            pass
    src = os.path.join(REPO, 'src') + '/'
    cmd = [exe, src, path, '--', '-std=gnu++17'] + WINE + QT + flags + ['-I' + os.path.join(REPO, 'src', 'jomlib')]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode != 0:
        raise AnalysisError('cannot parse %s:\n%s' % (path, r.stderr.decode(errors='replace')[:3000]))
    u = json.loads(r.stdout)
    tmp = out + '.%d' % os.getpid()
    with open(tmp, 'wb') as f:
        f.write(r.stdout)
    os.rename(tmp, out)
    return rel, u


def extract():
    """Returns {path: unit} for /repo's current working tree; units are cached by the content they are made of."""
    exe = tool()
    files = _files()
    us = units()
    tus = {os.path.relpath(p, os.path.join(REPO, 'src')) for p, f in us}
    base = hashlib.sha256()
    base.update(open(os.path.join(VERIF, 'extract', 'jomex.cpp'), 'rb').read())
    base.update(open(os.path.abspath(__file__), 'rb').read())
    incl = any(re.search(rb'#\s*include\s*"[^"]*\.cpp"', d) for d in files.values())
    for n, d in files.items():
        if n not in tus or incl:
            base.update(n.encode() + b'\0' + d + b'\0')
    jobs = []
    for p, f in us:
        rel = os.path.relpath(p, os.path.join(REPO, 'src'))
        h = base.copy()
        h.update(rel.encode() + b'\0' + files.get(rel, b''))
        jobs.append((exe, p, f, h.hexdigest()[:32]))
    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        res = dict(ex.map(_one, jobs))
    old = sorted((os.path.join(CACHE, f) for f in os.listdir(CACHE) if f.startswith('unit-')),
                 key=lambda x: os.path.getmtime(x) if os.path.exists(x) else 0)
    for f in old[:-600]:
        try:
            os.unlink(f)
        except OSError:
            pass
    return res


if __name__ == '__main__':
    tool()
    if '--tool' not in sys.argv:
        d = extract()
        print(len(d), 'units', sum(len(u['functions']) for u in d.values()), 'functions')
