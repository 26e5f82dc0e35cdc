"""Builds the simulator executables: the sensor's own sources from /repo's working tree, with every libc call redirected
to the simulator (objcopy) and every memory access instrumented, linked with the simulator into one program per product."""
import os, glob, hashlib, subprocess, sys, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SIM_REPO', '/repo')
SRC = REPO + '/src'
BUILD = os.environ.get('SIM_BUILD', VERIF + '/build')
SIM = VERIF + '/sim'

def g(p, minus=()):
    return sorted(f for f in glob.glob(SRC + '/' + p) if os.path.basename(f) not in minus)
def s(*names): return [SRC + '/' + n for n in names]
def core(minus=()): return g('core/*.c', minus)
def util(minus=()): return g('util/*.c', ('net_common-winsock.c',) + tuple(minus)) + s('util/port/mmap-posix.c')
TR = lambda kind: g('trimble/*.c', tuple('trimble_input_%s.c' % k for k in ('uart', 'network', 'dummy') if k != kind))
FEED = ['dump1090/dump1090.c', 'dump1090/req-serial.c', 'dump1090/position.c', 'radarcape/rc-parser.c', 'radarcape/network.c']
RCD = ['radarcape/main.c', 'radarcape/rc-parser.c']
def gplib(d):
    return core(('recv.c',)) + util(('log_stdio.c', 'proc.c')) + s(d + '/opensky.cc', d + '/log_lib.cc')
STATE, ETC, FW = '/var/lib/openskyd', '/etc/openskyd', '/usr/lib/openskyd'
DIRS = ['-DSYSCONFDIR="%s"' % ETC, '-DLOCALSTATEDIR="%s"' % STATE, '-DFWDIR="%s"' % FW]
PRODUCTS = {
  'feeder':  dict(src=lambda: s(*FEED, 'dump1090/devtype.c') + core() + util(), flags=DIRS, scen=['scen_feeder.cc']),
  'donated': dict(src=lambda: s(*FEED, 'radarcape/tb-rshell.c') + core() + util(), flags=DIRS + ['-DDUMP1090_DONATED'], scen=['scen_feeder.cc'], simflags=['-DP_DONATED']),
  'kit':     dict(src=lambda: s(*FEED) + core() + util(), flags=DIRS + ['-DDUMP1090_KIT'], scen=['scen_feeder.cc'], simflags=['-DP_KIT']),
  'rcnet':   dict(src=lambda: s(*RCD, 'radarcape/network.c') + core() + util() + TR('network'), flags=DIRS + ['-DINPUT_RADARCAPE_NETWORK'], scen=['scen_feeder.cc'], simflags=['-DP_RCNET']),
  'rc':      dict(src=lambda: s(*RCD, 'radarcape/uart.c', 'radarcape/fpga.c', 'radarcape/watchdog.c', 'radarcape/gpio.c', 'radarcape/tb-rshell.c', 'radarcape/tb-misc.c') + core() + util() + TR('uart'),
                  flags=DIRS + ['-DINPUT_RADARCAPE_UART', '-DSTANDALONE', '-DWITH_SYSTEMD="/usr/bin"', '-DWITH_PACMAN'], scen=['scen_feeder.cc'], simflags=['-DP_RC']),
  'rcwd':    dict(src=lambda: s('radarcape/wd-main.c', 'radarcape/gpio.c', 'radarcape/watchdog.c') + util(), flags=DIRS + ['-DWD_ONLY'], scen=['scen_wd.cc']),
  'gplib':   dict(src=lambda: gplib('gplib'), flags=['-DPREFIX="OpenSky"', '-DLIB'], scen=['scen_lib.cc'], simflags=['-DP_GPLIB']),
  'rclib':   dict(src=lambda: gplib('radarcape/lib'), flags=['-DPREFIX="OpenSky"', '-DLIB'], scen=['scen_lib.cc'], simflags=['-DP_RCLIB']),
  'comp':    dict(src=lambda: util(), flags=[], scen=['scen_comp.cc']),
  'gps':     dict(src=lambda: s('core/gps.c', 'core/beast.c') + util(), flags=[], scen=['scen_gps.cc']),
  'parse':   dict(src=lambda: s('radarcape/rc-parser.c', 'trimble/trimble_parser.c', 'core/filter.c') + util(), flags=['-DINPUT_RADARCAPE_UART'], scen=['scen_parse.cc']),
  'buf':     dict(src=lambda: s('core/buffer.c') + util(), flags=[], scen=['scen_buf.cc']),
}
VARIANTS = {
  'tsan': dict(flags=['-fsanitize=thread', '--param', 'tsan-instrument-func-entry-exit=0'], simflags=[]),
  'kasan': dict(flags=['-fsanitize=kernel-address', '-fasan-shadow-offset=0x7fff8000', '--param', 'asan-stack=1', '--param', 'asan-globals=1',
                       '--param', 'asan-instrumentation-with-call-threshold=0', '--param', 'asan-kernel-mem-intrinsic-prefix=1'], simflags=['-DSIM_KASAN']),
}
CCOMMON = ['-O1', '-g', '-fno-pic', '-no-pie', '-fno-common', '-fno-zero-initialized-in-bss', '-fno-builtin', '-U_FORTIFY_SOURCE', '-fstack-protector-all', '-w', '-pthread', '-DHAVE_CONFIG_H', '-I', SIM, '-I', SRC]
SIMC = ['g++', '-std=c++17', '-O2', '-g', '-fno-pic', '-no-pie', '-fno-common', '-w', '-U_FORTIFY_SOURCE', '-pthread', '-I', SIM]
COMMON_SIM = ['core.cc', 'sys.cc', 'world.cc', 'main.cc']

class BuildError(Exception): pass
def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode: raise BuildError('%s\n%s' % (' '.join(cmd)[:400], r.stdout[-6000:]))
    return r.stdout
def digest(files, extra):
    h = hashlib.sha256(repr(extra).encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]
def headers(): return [f for e in ('h', 'hh') for f in glob.glob(SRC + '/**/*.' + e, recursive=True)]
def simfiles(): return [f for e in ('h', 'cc') for f in glob.glob(SIM + '/*.' + e)]

def build(product, variant, pool=None):
    """returns path of the executable"""
    P, V = PRODUCTS[product], VARIANTS[variant]
    srcs = P['src']()
    flags = CCOMMON + P['flags'] + V['flags']
    key = digest(srcs + headers() + simfiles() + [os.path.abspath(__file__)], (product, variant, flags, REPO))
    d = '%s/%s-%s' % (BUILD, product, variant); out = '%s/%s' % (d, key)
    exe = out + '/sim'
    if os.path.exists(exe): return exe
    os.makedirs(BUILD, exist_ok=True)
    with open(d + '.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe): return exe
        if os.path.isdir(d): shutil.rmtree(d)
        os.makedirs(out)
        _build(product, variant, P, V, srcs, flags, out, exe)
    return exe

def _build(product, variant, P, V, srcs, flags, out, exe):
    own = ThreadPoolExecutor(8)
    def cc(f):
        o = out + '/s_' + f[len(SRC) + 1:].replace('/', '_') + '.o'
        run((['g++', '-std=gnu++11'] if f.endswith('.cc') else ['gcc', '-std=gnu11']) + flags + ['-I', os.path.dirname(f), '-c', f, '-o', o]); return o
    def sc(f):
        cache = BUILD + '/simobj'; os.makedirs(cache, exist_ok=True)
        sf = (V['simflags'] if f in ('core.cc', 'sys.cc') else []) + (P.get('simflags', []) if f.startswith('scen') else [])
        key = digest(simfiles(), (f, sf, SIMC)); o = '%s/%s-%s.o' % (cache, f, key)
        if not os.path.exists(o):
            tmp = '%s.%d.tmp' % (o, os.getpid()) + product + variant
            for old in glob.glob('%s/%s-*.o' % (cache, f)):
                try:
                    if os.path.getmtime(old) < __import__('time').time() - 3600: os.unlink(old)
                except OSError: pass
            run(SIMC + sf + ['-c', SIM + '/' + f, '-o', tmp]); os.rename(tmp, o)
        return o
    sut = [own.submit(cc, f) for f in srcs]; sim = [own.submit(sc, f) for f in COMMON_SIM + P['scen']]
    so = [x.result() for x in sut]; mo = [x.result() for x in sim]
    # the seam: every undefined symbol X of the sensor for which the simulator defines sim_X
    have = set(l.split()[-1] for l in run(['nm', '--defined-only', '-g'] + mo).splitlines() if len(l.split()) == 3 and l.split()[-1].startswith('sim_'))
    und, dfn = set(), set()
    for l in run(['nm'] + so).splitlines():
        t = l.split()
        if len(t) == 2 and t[0] in 'Uw': und.add(t[1])
        elif len(t) == 3 and t[1].isupper(): dfn.add(t[2])
    und -= dfn
    redef, direct = [], []
    for x in sorted(und):
        b = x[2:-4] if x.startswith('__') and x.endswith('_chk') else x
        n = x
        if x.startswith('__asan_mem') : n = x[7:]
        if 'sim_' + n in have: redef.append((x, 'sim_' + n))
        elif not x.startswith(('__tsan', '__asan')): direct.append(x)
    with open(out + '/redef', 'w') as f:
        for a, b in redef: f.write('%s %s\n' % (a, b))
        f.write('main sut_main\n')
    with open(out + '/seam.txt', 'w') as f:
        f.write('redirected: %s\ndirect: %s\n' % (' '.join(a for a, _ in redef), ' '.join(direct)))
    def oc(o): run(['objcopy', '--redefine-syms=' + out + '/redef', '--rename-section', '.data=sut_data,alloc,load,data,contents', '--rename-section', '.bss=sut_bss,alloc,load,data,contents', o])
    list(own.map(oc, so))
    # like the project's own build, core/ and util/ are static libraries: only the members a program needs are linked
    isLib = (lambda f: False) if product in ('gplib', 'rclib') else (lambda f: f.startswith((SRC + '/core/', SRC + '/util/', SRC + '/trimble/')))
    lib = [o for f, o in zip(srcs, so) if isLib(f)]; own_o = [o for f, o in zip(srcs, so) if not isLib(f)]
    if lib: run(['ar', 'rcs', out + '/libsut.a'] + lib)
    run(['g++', '-no-pie', '-g', '-pthread', '-o', exe + '.tmp'] + mo + own_o + ([out + '/libsut.a'] if lib else []) + ['-lm'])
    for o in so + ([out + '/libsut.a'] if lib else []): os.unlink(o)
    os.rename(exe + '.tmp', exe)
    own.shutdown()

if __name__ == '__main__':
    want = sys.argv[1:] or ['%s:%s' % (p, v) for p in PRODUCTS for v in ('tsan',)]
    for w in want:
        p, v = w.split(':'); print(w, build(p, v))
