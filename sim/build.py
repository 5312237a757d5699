#!/usr/bin/env python3
"""Builds the simulator and jom (from /repo's working tree) into /verif/.build/<hash>; prints the directory."""
import concurrent.futures as cf, fcntl, glob, hashlib, os, re, shlex, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
ROOT = os.environ.get('SIM_BUILD', os.path.join(os.path.dirname(HERE), '.build'))
COPIES = 24
MOC = '/usr/lib/qt5/bin/moc'
WF = '''-D_GNU_SOURCE -DWINE_UNICODE_NATIVE -D_REENTRANT -DWIN64 -D_WIN64 -D__WIN64 -D__WIN64__ -DWIN32 -D_WIN32 -D__WIN32 -D__WIN32__ -D__WINNT -D__WINNT__ -D__stdcall=__attribute__((ms_abi)) -D__cdecl=__stdcall -D__fastcall=__stdcall -D_stdcall=__stdcall -D_cdecl=__cdecl -D_fastcall=__fastcall -D__declspec(x)=__declspec_##x -D__declspec_align(x)=__attribute__((aligned(x))) -D__declspec_allocate(x)=__attribute__((section(x))) -D__declspec_deprecated=__attribute__((deprecated)) -D__declspec_dllimport= -D__declspec_dllexport= -D__declspec_naked=__attribute__((naked)) -D__declspec_noinline=__attribute__((noinline)) -D__declspec_noreturn=__attribute__((noreturn)) -D__declspec_nothrow=__attribute__((nothrow)) -D__declspec_novtable= -D__declspec_selectany=__attribute__((weak)) -D__declspec_thread=__thread -D__int8=char -D__int16=short -D__int32=int -D__int64=long -D__WINE__ -fshort-wchar -fPIC -isystem /usr/include/wine/wine/windows -idirafter /usr/include/wine'''.split() + ['-DDECLSPEC_IMPORT=']
# the macro definitions contain blanks nowhere, so a plain split is enough
QI = ['-I/usr/include/x86_64-linux-gnu/qt5', '-I/usr/include/x86_64-linux-gnu/qt5/QtCore']
COMMON = ['g++', '-std=gnu++17', '-w', '-O1', '-g1', '-fno-gnu-unique', '-fno-omit-frame-pointer', '-U_FORTIFY_SOURCE']
JDEF = ['-DQT_CORE_LIB', '-DQT_NO_CAST_FROM_ASCII', '-DQT_NO_CAST_TO_ASCII', '-DQT_NO_DEBUG', '-DUNICODE', '-D_UNICODE', '-DNDEBUG', '-DJOM_VERSION_MAJOR=1', '-DJOM_VERSION_MINOR=1', '-DJOM_VERSION_PATCH=4', '-DSRCDIR=""']

def sources():
    lib = [f for f in sorted(glob.glob(REPO + '/src/jomlib/*.cpp')) if not f.endswith('jomprocess_qt.cpp')]
    app = sorted(glob.glob(REPO + '/src/app/*.cpp'))
    return lib, app

def digest():
    h = hashlib.sha256()
    fs = []
    for d in (REPO + '/src', HERE):
        for r, ds, f in os.walk(d):
            ds.sort()
            if '__pycache__' in r: continue
            fs += [os.path.join(r, x) for x in sorted(f) if x.endswith(('.cpp', '.h', '.inc', '.py', '.g', '.l')) or '.' not in x]
    for f in fs:
        h.update(f.encode()); h.update(open(f, 'rb').read()); h.update(b'\0')
    return h.hexdigest()[:20]

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise RuntimeError('build failed: %s\n%s' % (' '.join(cmd)[-300:], p.stdout.decode(errors='replace')[-6000:]))

def build(verbose=False):
    d = os.path.join(ROOT, digest())
    os.makedirs(ROOT, exist_ok=True)
    with open(os.path.join(ROOT, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(d + '/ok'):
            os.utime(d)
            return d
        # keep the cache small
        old = sorted((x for x in glob.glob(ROOT + '/*/') ), key=os.path.getmtime)
        for x in old[:-6]:
            shutil.rmtree(x, ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + '/o')
        lib, app = sources()
        jobs = []
        jobs_moc = []
        jinc = ['-I' + HERE + '/shim', '-I' + HERE + '/inc', '-I' + REPO + '/src/jomlib', '-I' + REPO + '/src/app', '-I' + d]
        pre = ['-include', HERE + '/inc/msvc_names.h', '-include', HERE + '/qtshim.h']
        jobj = []
        def jcompile(src, name, extra=()):
            o = d + '/o/j_' + name + '.o'
            jobj.append(o)
            jobs.append(COMMON + ['-fsanitize=thread'] + WF + jinc + QI + JDEF + pre + list(extra) + ['-c', src, '-o', o])
        allh = sorted(glob.glob(REPO + '/src/jomlib/*.h') + glob.glob(REPO + '/src/app/*.h'))
        for f in allh:
            if re.search(r'\bQ_OBJECT\b', open(f, errors='replace').read()):
                m = d + '/moc_' + os.path.basename(f)[:-2] + '.cpp'
                jobs_moc.append([MOC] + JDEF + ['-DQT_CORE_LIB'] + jinc + [f, '-o', m])
                jcompile(m, 'moc_' + os.path.basename(f)[:-2])
        for f in lib + app:
            t = open(f, errors='replace').read()
            b = os.path.basename(f)[:-4]
            if re.search(r'^\s*Q_OBJECT\b', t, re.M) or '"%s.moc"' % b in t:
                jobs_moc.append([MOC] + JDEF + jinc + [f, '-o', d + '/' + b + '.moc'])
            jcompile(f, ('app_' if f in app else '') + b, ['-Dmain=jom_main'] if f in app else ())
        for h, n in ((HERE + '/qtshim.h', 'qtshim'), (HERE + '/shim/qwineventnotifier.h', 'wen')):
            m = d + '/moc_sim_' + n + '.cpp'
            jobs_moc.append([MOC, h, '-o', m])
            o = d + '/o/j_moc_sim_' + n + '.o'; jobj.append(o)
            jobs.append(COMMON + WF + jinc + QI + ['-include', HERE + '/inc/msvc_names.h', '-c', m, '-o', o])
        o = d + '/o/j_qtshim.o'; jobj.append(o)
        jobs.append(COMMON + WF + jinc + QI + ['-include', HERE + '/inc/msvc_names.h', '-c', HERE + '/qtshim.cpp', '-o', o])
        sobj = []
        for f in ('alloc', 'sched', 'tsan', 'vfs', 'stdio', 'actors', 'main', 'win32'):
            o = d + '/o/s_' + f + '.o'; sobj.append(o)
            extra = (WF + ['-D__RPC_H__X']) if f == 'win32' else (QI + ['-fPIC'] if f == 'main' else ['-fPIC'])
            extra = extra + (['-fno-builtin'] if f in ('alloc', 'stdio') else [])
            c = [x for x in COMMON if x != '-O1'] + ['-O2']
            jobs.append(c + ['-I' + HERE] + extra + ['-c', HERE + '/' + f + '.cpp', '-o', o])
        with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            list(ex.map(run, jobs_moc))
            list(ex.map(run, jobs))
        so = d + '/jom0.so'
        run(['g++', '-shared', '-o', so] + jobj + ['-Wl,-Bsymbolic', '-Wl,--unresolved-symbols=ignore-all', '-lQt5Core', '-lstdc++', '-lc', '-lgcc_s'])
        run(['g++', '-rdynamic', '-no-pie', '-o', d + '/sim'] + sobj + ['-lQt5Core', '-ldl', '-lpthread'])
        # every external of jom must be known to the simulator, Qt or the C library
        for i in range(1, COPIES):
            shutil.copy(so, d + '/jom%d.so' % i)
        shutil.rmtree(d + '/o')
        open(d + '/ok', 'w').write('ok')
        return d

if __name__ == '__main__':
    print(build(True))
