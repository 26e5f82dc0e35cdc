"""Builds a sensor program from the sources in the current directory (/repo) into a scratch directory and runs it against
a fake collector and a fake receiver on the loopback network. Every effect stays inside the scratch directory."""
import os, sys, glob, socket, threading, subprocess, tempfile, shutil, time, struct, signal, atexit
from concurrent.futures import ThreadPoolExecutor
SRC = os.path.abspath('src'); HERE = os.path.dirname(os.path.abspath(__file__))
TMP = tempfile.mkdtemp(prefix='demo-'); atexit.register(lambda: shutil.rmtree(TMP, ignore_errors=True))
ETC, VAR = TMP + '/etc', TMP + '/var'
FEED = ['dump1090/dump1090.c', 'dump1090/req-serial.c', 'dump1090/position.c', 'radarcape/rc-parser.c', 'radarcape/network.c']

def fail(msg): print('FAIL: ' + msg); sys.stdout.flush(); os._exit(cleanup(1))
def ok(msg='property holds'): print('OK: ' + msg); sys.stdout.flush(); os._exit(cleanup(0))
_procs = []
def cleanup(code):
    for p in _procs:
        try: p.kill()
        except OSError: pass
    shutil.rmtree(TMP, ignore_errors=True); return code

def compile(name, main, flags=(), extra=(), libs=(), cc='gcc', util_minus=(), core_minus=(), trimble=None, ld=()):
    """main: sources relative to src/ (or absolute), linked with core/ and util/ as libraries like the project's own build"""
    out = TMP + '/' + name + '.d'; os.makedirs(out)
    lib = [f for f in glob.glob(SRC + '/core/*.c') if os.path.basename(f) not in core_minus] + [f for f in glob.glob(SRC + '/util/*.c') if os.path.basename(f) not in ('net_common-winsock.c',) + tuple(util_minus)] + [SRC + '/util/port/mmap-posix.c']
    if trimble: lib += [f for f in glob.glob(SRC + '/trimble/*.c') if not any(os.path.basename(f) == 'trimble_input_%s.c' % k for k in ('uart', 'network', 'dummy') if k != trimble)]
    own = [m if m.startswith('/') else SRC + '/' + m for m in main]
    fl = ['-g', '-O1', '-w', '-pthread', '-DHAVE_CONFIG_H', '-I' + os.path.abspath('_build'), '-I' + SRC, '-DSYSCONFDIR="%s"' % ETC, '-DLOCALSTATEDIR="%s"' % VAR, '-DFWDIR="%s"' % (TMP + '/fw'), *flags]
    def one(f):
        o = out + '/' + f.replace('/', '_') + '.o'; cxx = f.endswith('.cc')
        r = subprocess.run([('g++' if cxx else cc)] + (['-std=gnu++11'] if cxx else ['-std=gnu11']) + fl + ['-I' + os.path.dirname(f), '-c', f, '-o', o], stderr=subprocess.STDOUT, stdout=subprocess.PIPE, text=True)
        if r.returncode: print(r.stdout[-3000:]); raise SystemExit('cannot compile ' + f)
        return o
    with ThreadPoolExecutor(8) as ex: lo = list(ex.map(one, lib)); oo = list(ex.map(one, own))
    subprocess.check_call(['ar', 'rcs', out + '/lib.a'] + lo)
    subprocess.check_call(['g++' if any(f.endswith('.cc') for f in own) else cc, '-pthread', '-g', '-o', TMP + '/' + name] + [f for f in flags if f.startswith('-fsan')] + oo + [out + '/lib.a', *libs, '-lm', *ld])
    return TMP + '/' + name
def feeder(flags=(), dev=True): return compile('openskyd', FEED + (['dump1090/devtype.c'] if dev else []), flags)
def preload(csource):
    f = TMP + '/shim.c'; open(f, 'w').write(csource)
    subprocess.check_call(['gcc', '-w', '-O1', '-g', '-shared', '-fPIC', '-o', TMP + '/shim.so', f, '-ldl', '-pthread']); return TMP + '/shim.so'

def config(sections, name='10-demo.conf'):
    os.makedirs(ETC + '/conf.d', exist_ok=True); os.makedirs(VAR + '/conf.d', exist_ok=True)
    with open(ETC + '/conf.d/' + name, 'w') as f:
        for s, o in sections.items():
            f.write('[%s]\n' % s)
            for k, v in o.items(): f.write('%s = %s\n' % (k, v))
def start(exe, args=(), env=(), shim=None):
    e = dict(os.environ); e.update(dict(env))
    if shim: e['LD_PRELOAD'] = shim
    log = open(TMP + '/log-%d' % len(_procs), 'w'); p = subprocess.Popen([exe, *args], stdout=log, stderr=subprocess.STDOUT, cwd=TMP, env=e); p.logfile = log.name; _procs.append(p); return p
def stop(p, t=20):
    p.send_signal(signal.SIGINT)
    try: return p.wait(t)
    except subprocess.TimeoutExpired: return None
def log(p): return open(p.logfile).read()

class Server:
    """accepts connections; each has .data (received so far) and .sock"""
    def __init__(self, host='127.0.0.1', on=None, port=0):
        self.s = socket.socket(); self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); self.s.bind((host, port)); self.s.listen(16); self.port = self.s.getsockname()[1]; self.conns = []; self.on = on
        threading.Thread(target=self.loop, daemon=True).start()
    def loop(self):
        while True:
            try: c, _ = self.s.accept()
            except OSError: return
            k = Conn(c, len(self.conns)); self.conns.append(k)
            if self.on: threading.Thread(target=self.on, args=(k,), daemon=True).start()
    def wait(self, n, t=30):
        end = time.time() + t
        while len(self.conns) < n and time.time() < end: time.sleep(0.02)
        return self.conns[n - 1] if len(self.conns) >= n else None
    def close(self): self.s.close()
class Conn:
    def __init__(self, s, no):
        self.sock = s; self.no = no; self.data = b''; self.closed = False; self.t0 = time.time(); self.times = []; threading.Thread(target=self.loop, daemon=True).start()
    def loop(self):
        while True:
            try: b = self.sock.recv(65536)
            except OSError: b = b''
            if not b: self.closed = True; return
            self.data += b; self.times.append((time.time(), len(self.data)))
    def send(self, b): self.sock.sendall(b)
    def reset(self): self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0)); shut(self.sock)
    def close(self): shut(self.sock)
    def msgs(self): return parse(self.data)
def shut(s):
    try: s.shutdown(socket.SHUT_RDWR)
    except OSError: pass
    s.close()
LEN = {0x31: 9, 0x32: 14, 0x33: 21, 0x34: 21, 0x35: 4, 0x36: 0, 0x37: 24, 65: 16, 66: 0, 67: 40}
def parse(d):
    """complete messages [(type, body)], raises ValueError on anything else"""
    out = []; i = 0
    while i + 1 < len(d):
        if d[i] != 0x1a or d[i + 1] not in LEN: raise ValueError('no message at offset %d: %s' % (i, d[i:i + 16].hex()))
        t = d[i + 1]; j = i + 2; body = b''
        while len(body) < LEN[t] and j < len(d):
            if d[j] == 0x1a:
                if j + 1 >= len(d): break
                if d[j + 1] != 0x1a: raise ValueError('unescaped byte at offset %d' % j)
                j += 1
            body += d[j:j + 1]; j += 1
        if len(body) < LEN[t]: break
        out.append((t, body)); i = j
    return out
def esc(b): return b.replace(b'\x1a', b'\x1a\x1a')
def frame(n, df=17, kind=3): # a long frame with a number in it; df 17: extended squitter
    ln = {1: 2, 2: 7, 3: 14, 4: 14}[kind]
    return b'\x1a' + bytes([0x30 + kind]) + esc(struct.pack('>Q', n)[2:] + b'\x30' + (bytes([df << 3]) + struct.pack('>I', n) + b'\xaa' * 20)[:ln])
def status(synced=True): return b'\x1a4' + esc(b'\0' * 6 + b'\0' + bytes([0x80, 0, 0x20 if synced else 0]) + b'\0' * 11)
def tb(t, payload=b''): return struct.pack('>HH', t, 4 + len(payload)) + payload
def until(f, t=15, step=0.02):
    end = time.time() + t
    while time.time() < end:
        if f(): return True
        time.sleep(step)
    return bool(f())
def frames(c): return [struct.unpack('>I', b[8:12])[0] for t, b in c.msgs() if t == 0x33]
