"""A small client for mtd and a runner of real servers inside a scratch directory (used by the D and S demonstrations)."""
import os, signal, socket, subprocess, struct, sys, tempfile, time, shutil

def pk(x):
    if isinstance(x, bool): return b'\xc3' if x else b'\xc2'
    if isinstance(x, int):
        if 0 <= x < 128: return bytes([x])
        if x < 65536: return b'\xcd' + struct.pack('>H', x)
        return b'\xce' + struct.pack('>I', x)
    if isinstance(x, str): x = x.encode('latin1')
    if isinstance(x, bytes):
        if len(x) < 32: return bytes([0xa0 + len(x)]) + x
        return b'\xda' + struct.pack('>H', len(x)) + x
    if isinstance(x, (list, tuple)):
        h = bytes([0x90 + len(x)]) if len(x) < 16 else b'\xdc' + struct.pack('>H', len(x))
        return h + b''.join(pk(i) for i in x)
    if isinstance(x, dict):
        return bytes([0x80 + len(x)]) + b''.join(pk(k) + pk(v) for k, v in x.items())
    raise ValueError(x)

class More(Exception): pass

def up(b, p=0):
    def need(n):
        if len(b) < p + n: raise More()
    need(1); c = b[p]
    def arr(n, q):
        r = []
        for _ in range(n):
            v, q = up(b, q); r.append(v)
        return r, q
    def mp(n, q):
        r = {}
        for _ in range(n):
            k, q = up(b, q); v, q = up(b, q); r[k] = v
        return r, q
    def st(n, q):
        if len(b) < q + n: raise More()
        return bytes(b[q:q + n]), q + n
    if c < 0x80: return c, p + 1
    if c >= 0xe0: return c - 256, p + 1
    if c < 0x90: return mp(c & 15, p + 1)
    if c < 0xa0: return arr(c & 15, p + 1)
    if c < 0xc0: return st(c & 31, p + 1)
    if c == 0xc0: return None, p + 1
    if c == 0xc2: return False, p + 1
    if c == 0xc3: return True, p + 1
    f = {0xcc: '>B', 0xcd: '>H', 0xce: '>I', 0xcf: '>Q', 0xd0: '>b', 0xd1: '>h', 0xd2: '>i', 0xd3: '>q', 0xcb: '>d', 0xca: '>f'}
    if c in f:
        n = struct.calcsize(f[c]); need(1 + n)
        return struct.unpack(f[c], b[p + 1:p + 1 + n])[0], p + 1 + n
    n = {0xd9: 1, 0xda: 2, 0xdb: 4, 0xc4: 1, 0xc5: 2, 0xc6: 4, 0xdc: 2, 0xdd: 4, 0xde: 2, 0xdf: 4}[c]
    need(1 + n); l = int.from_bytes(b[p + 1:p + 1 + n], 'big')
    if c in (0xdc, 0xdd): return arr(l, p + 1 + n)
    if c in (0xde, 0xdf): return mp(l, p + 1 + n)
    return st(l, p + 1 + n)

class Conn:
    def __init__(self, port, core=-1, window=None, timeout=20):
        self.s = socket.socket()
        if window: self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, window)
        self.s.settimeout(timeout); self.s.connect(('127.0.0.1', port))
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.b = b''; self.n = 0
        h = {'core': core} if core >= 0 else {}
        self.send([0, 14, h]); r = self.recv(); assert r[1] == 15 and r[2], r
    def send(self, m): self.s.sendall(pk(m))
    def recv(self):
        while 1:
            try:
                v, p = up(self.b); self.b = self.b[p:]; return v
            except More: pass
            d = self.s.recv(65536)
            if not d: raise EOFError()
            self.b += d
    def post(self, cmd, *a):
        self.n = (self.n + 1) & 0x7fff; self.send([self.n, cmd] + list(a)); return self.n
    def call(self, cmd, *a):
        n = self.post(cmd, *a); r = self.recv()
        assert r[0] == n and r[1] == cmd + 1, (r, n, cmd)
        return r[2:]
    def get(self, k):
        r = self.call(2, k); return r[0] if r else None
    def put(self, k, *cv): return self.call(6, k, *cv)
    def replace(self, k, v): return self.call(8, k, v)
    def remove(self, k): return self.call(10, k)
    def scan(self, k, n): return self.call(4, k, n)
    def checkpoint(self): self.post(12)
    def close(self): self.s.close()

def free_port():
    # n consecutive ports are needed only with udp threads; they are bound to port, port+1, ...
    for p in range(20000 + os.getpid() % 20000, 60000, 17):
        ok = 1
        for q in range(p, p + 8):
            for t in (socket.SOCK_STREAM, socket.SOCK_DGRAM):
                s = socket.socket(socket.AF_INET, t)
                try: s.bind(('0.0.0.0', q))
                except OSError: ok = 0
                s.close()
        if ok: return p
    raise SystemExit(3)

class Server:
    def __init__(self, j=2, args=(), preload=None, env=None, dirs=None):
        self.t = tempfile.mkdtemp(); self.j = j; self.args = list(args); self.p = None
        self.preload = preload; self.env = env or {}
        os.mkdir(self.t + '/l'); os.mkdir(self.t + '/c')
    def start(self, wait=30, args=None):
        self.port = free_port()
        e = dict(os.environ); e.update(self.env)
        if self.preload: e['LD_PRELOAD'] = self.preload
        self.out = open(self.t + '/out', 'ab')
        self.p = subprocess.Popen(['/repo/mtd', '-j%d' % self.j, '--ld', self.t + '/l', '--cd', self.t + '/c', '--port', str(self.port)]
                                  + (self.args if args is None else list(args)), cwd=self.t, stdout=self.out, stderr=subprocess.STDOUT, env=e)
        end = time.time() + wait
        while time.time() < end:
            if self.p.poll() is not None: raise RuntimeError('server ended %s\n%s' % (self.p.returncode, self.log()))
            try:
                c = Conn(self.port, 0, timeout=max(1, end - time.time())); self.c = c; return c
            except (ConnectionRefusedError,): time.sleep(0.05)
        raise RuntimeError('server does not start\n' + self.log())
    def log(self): return open(self.t + '/out', errors='replace').read()[-3000:]
    def alive(self): return self.p.poll() is None
    def kill(self, sig=signal.SIGKILL):
        if self.p and self.p.poll() is None:
            self.p.send_signal(sig)
            try: self.p.wait(30)
            except subprocess.TimeoutExpired: self.p.kill(); self.p.wait()
    def done(self):
        self.kill(); shutil.rmtree(self.t)

def main(f, *a, **k):
    s = Server(*a, **k)
    try: r = f(s)
    except Exception as e:
        import traceback; traceback.print_exc(); print(s.log()); r = 1
    finally: s.done()
    sys.exit(r)
