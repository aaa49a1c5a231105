#!/usr/bin/env python3
"""Builds the simulators from /repo's working tree into /verif/build (reused while nothing changed)."""
import hashlib, os, subprocess, sys, glob, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.path.join(V, 'build')
INC = ['zlib', 'src', 'generated', 'src/gdlib', 'src/global', 'src/rtl', 'src/tools', '.']
WRAP = 'open open64 creat read write pread pwrite lseek lseek64 close fstat fstat64 stat stat64 lstat lstat64 access unlink remove rename ftruncate ftruncate64 fsync system getenv malloc realloc calloc free dlopen dlsym dlclose'.split()

def core():
    r = [os.path.join(REPO, 'src/gxfile.cpp'), os.path.join(REPO, 'generated/gdxcclib.cpp')]
    for d in ('src/rtl', 'src/gdlib'):
        r += glob.glob(os.path.join(REPO, d, '*.cpp')) + glob.glob(os.path.join(REPO, d, '*.c'))
    return sorted(r)

TOOLS = ['gdxmerge', 'gdxdiff', 'gdxdump']
def tools():
    r = core()
    for d in TOOLS + ['library']: r += sorted(glob.glob(os.path.join(REPO, 'src/tools', d, '*.cpp')))
    return r

COMMON = ['-DNDEBUG', '-U_FORTIFY_SOURCE', '-g1', '-fno-omit-frame-pointer', '-w', '-D_FILE_OFFSET_BITS=64']
VARIANTS = {
    'asan': dict(cflags=['-O1', '-fsanitize=address,undefined', '-fno-sanitize=vptr,alignment', '-fno-sanitize-recover=undefined'],
                 ld=['-fsanitize=address,undefined'], repo=core, gdxcc=True,
                 sim=['disk.cpp', 'exec.cpp', 'gen.cpp', 'props.cpp', 'main.cpp', 'cli.cpp'], wrap=WRAP, libs=['-l:libz.a', '-ldl', '-lpthread']),
    'fast': dict(cflags=['-O2'], ld=[], repo=core, gdxcc=True,
                 sim=['disk.cpp', 'exec.cpp', 'gen.cpp', 'props.cpp', 'main.cpp', 'cli.cpp'], wrap=WRAP, libs=['-l:libz.a', '-ldl', '-lpthread']),
    # several simulated threads: the memory accesses and function entries of library and loader call into the scheduler
    'sched': dict(cflags=['-O1'], ld=[], repo=core, repo_flags=['-fsanitize=thread'], gdxcc=True, gdxcc_flags=['-fsanitize=thread'], loader_hooks=True,
                  sim=['disk.cpp', 'exec.cpp', 'gen.cpp', 'props.cpp', 'sched.cpp', 'sched_main.cpp', 'cli.cpp'],
                  wrap=WRAP + 'dlerror pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_mutex_init pthread_mutex_destroy pthread_rwlock_wrlock pthread_rwlock_rdlock pthread_rwlock_unlock pthread_once __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort'.split(),
                  libs=['-l:libz.a', '-ldl', '-lpthread']),
    # the command line tools, whole
    'tools': dict(cflags=['-O1', '-fsanitize=address,undefined', '-fno-sanitize=vptr,alignment', '-fno-sanitize-recover=undefined'],
                  ld=['-fsanitize=address,undefined', '-static-libstdc++'], repo=tools, gdxcc=True,
                  sim=['disk.cpp', 'exec.cpp', 'stdio.cpp', 'tools_main.cpp', 'cli.cpp'],
                  wrap=WRAP + 'fopen fopen64 fileno fclose fflush writev opendir readdir readdir64 closedir getcwd'.split(), libs=['-l:libz.a', '-ldl', '-lpthread']),
}

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.stderr.write(' '.join(cmd) + '\n' + p.stdout[-6000:])
        raise SystemExit(3)

def _h(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()[:20]

def rd(f):
    with open(f, 'rb') as x: return x.read()

def headers():
    fs = []
    for root in ('src', 'generated', 'zlib'):
        for d, ds, names in os.walk(os.path.join(REPO, root)):
            ds[:] = sorted(x for x in ds if x not in ('tests', 'examples', '__pycache__'))
            fs += [os.path.join(d, n) for n in sorted(names) if n.endswith(('.h', '.hpp', '.inc'))]
    fs += sorted(glob.glob(os.path.join(V, 'sim', '*.hpp')))
    return fs

def build(variant):
    v = VARIANTS[variant]
    cache = os.path.join(OUT, 'obj')
    os.makedirs(cache, exist_ok=True)
    with open(os.path.join(OUT, f'.lock-{variant}'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        hh = headers()
        hrepo = _h(*[rd(f) for f in hh if not f.startswith(V)])
        hall = _h(*[f.encode() + rd(f) for f in hh])
        inc = ['-I' + os.path.join(REPO, i) for i in INC] + ['-I' + os.path.join(V, 'sim')]
        jobs, objs = [], []
        srcs = [(s, v.get('repo_flags', [])) for s in v['repo']()]
        if v.get('gdxcc'): srcs.append((os.path.join(REPO, 'generated/gdxcc.c'), v.get('gdxcc_flags', [])))
        sims = [(os.path.join(V, 'sim', s), v.get('sim_flags', [])) for s in v['sim']]
        for s, fl in sims + srcs:
            cc = ['gcc'] if s.endswith('.c') else ['g++', '-std=c++17']
            cmd = cc + COMMON + v['cflags'] + fl + inc + ['-c', s]
            o = os.path.join(cache, _h(repr(cmd), rd(s), hall if s.startswith(V) else hrepo) + '.o'); objs.append(o)
            if not os.path.exists(o): jobs.append((cmd, o))
        def one(j):
            cmd, o = j
            t = f'{o}.{os.getpid()}.tmp'
            run(cmd + ['-o', t])
            if cmd[-1].endswith('gdxcclib.cpp'):  # its inline helpers share names with the loader (in real life they live in separate objects)
                run(['objcopy', '-w', '--localize-symbol=gdx[A-Z]*', '--localize-symbol=__odr_asan.gdx*', t])
            for tool in TOOLS:
                if cmd[-1].startswith(os.path.join(REPO, 'src/tools', tool) + '/'): run(['objcopy', '--redefine-sym', f'main={tool}_main', t])
            if cmd[-1].endswith('gdxcc.c') and v.get('loader_hooks'):  # tell the loader's code from the library's
                run(['objcopy', '--redefine-sym', '__tsan_func_entry=__ldr_func_entry', '--redefine-sym', '__tsan_func_exit=__ldr_func_exit', t])
            os.rename(t, o)
        with ThreadPoolExecutor(8) as ex: list(ex.map(one, jobs))
        link = ['g++', '-rdynamic'] + objs + v['ld'] + ['-Wl,' + ','.join('--wrap=' + w for w in v['wrap'])] + v['libs']
        exe = os.path.join(OUT, f'{variant}-{_h(repr(link))}')
        if not os.path.exists(exe):
            for o in glob.glob(os.path.join(OUT, f'{variant}-*')):
                try: os.unlink(o)
                except OSError: pass
            run(link + ['-o', exe + '.tmp'])
            os.rename(exe + '.tmp', exe)
        return exe

if __name__ == '__main__':
    for v in sys.argv[1:] or VARIANTS: print(build(v))
