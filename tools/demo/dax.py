"""A scratch tag server and a minimal OpenDAX protocol client for the demonstrations."""
import atexit, os, shutil, socket, struct, subprocess, sys, tempfile, time
SRV = os.environ.get('DAXSRV') or os.path.join(os.getcwd(), 'build/src/server/tagserver')
BOOL, BYTE, SINT, CHAR, WORD, INT, UINT, DWORD, DINT, UDINT, REAL, LWORD, LINT, ULINT, TIME, LREAL = (
    0x0010, 0x0003, 0x0013, 0x0023, 0x0004, 0x0014, 0x0024, 0x0005, 0x0015, 0x0025, 0x0035, 0x0006, 0x0016, 0x0026, 0x0036, 0x0046)
READONLY, RETAIN, OWNED = 0x0001, 0x0004, 0x0020
(MOD_REG, TAG_ADD, TAG_DEL, TAG_GET, TAG_LIST, TAG_READ, TAG_WRITE, TAG_MWRITE, EVNT_ADD, EVNT_DEL, EVNT_GET, EVNT_OPT,
 CDT_CREATE, CDT_GET, MAP_ADD, MAP_DEL, MAP_GET, GRP_ADD, GRP_DEL, GRP_READ, GRP_WRITE, GRP_MWRITE, ATOMIC, ADD_OVRD,
 DEL_OVRD, GET_OVRD, SET_OVRD) = range(1, 28)
EV_READ, EV_WRITE, EV_CHANGE, EV_SET, EV_RESET, EV_EQUAL, EV_GREATER, EV_LESS, EV_DEADBAND, EV_DELETED = range(1, 11)
INC, DEC, NOT, OR, AND, NOR, NAND, XOR, XNOR = range(1, 10)

class Server:
    def __init__(self, dir=None, env=None):
        self.own = dir is None
        self.dir = dir or tempfile.mkdtemp(prefix='daxdemo')
        self.path = os.path.join(self.dir, 'sock')
        self.env = env; self.p = None
        atexit.register(self.close)
        self.start()
    def start(self):
        s = socket.socket(); s.bind(('127.0.0.1', 0)); port = s.getsockname()[1]; s.close()
        open(os.path.join(self.dir, 'tagserver.conf'), 'w').write('')
        if os.path.exists(self.path): os.unlink(self.path)
        self.log = open(os.path.join(self.dir, 'log'), 'w')
        e = dict(os.environ); e.update(self.env or {})
        self.p = subprocess.Popen([SRV, '-C', os.path.join(self.dir, 'tagserver.conf'), '-S', self.path, '-I', '127.0.0.1', '-P', str(port)],
                                  cwd=self.dir, stdout=self.log, stderr=self.log, env=e)
        for _ in range(100):
            try:
                c = socket.socket(socket.AF_UNIX); c.connect(self.path); c.close(); return
            except OSError:
                if self.p.poll() is not None: break
                time.sleep(0.05)
        print('server did not start'); print(open(os.path.join(self.dir, 'log')).read()); sys.exit(3)
    def stop(self, sig=9):
        if self.p and self.p.poll() is None:
            self.p.send_signal(sig)
            try: self.p.wait(5)
            except subprocess.TimeoutExpired: self.p.kill(); self.p.wait()
    def alive(self): return self.p.poll() is None
    def restart(self, sig=15): self.stop(sig); self.start()
    def close(self):
        self.stop()
        if self.own: shutil.rmtree(self.dir, ignore_errors=True)

class Err(Exception):
    def __init__(self, code): Exception.__init__(self, 'server error %d' % code); self.code = code
class Gone(Exception): pass

class Client:
    def __init__(self, srv, name='demo', reg=True, timeout=3):
        self.s = socket.socket(socket.AF_UNIX); self.s.settimeout(timeout); self.s.connect(srv.path)
        self.buf = b''; self.events = []
        if reg: self.req(MOD_REG, struct.pack('>II', 1000, 1) + name.encode() + b'\0')
    def close(self): self.s.close()
    def send(self, cmd, payload=b''): self.s.sendall(struct.pack('>II', len(payload) + 8, cmd) + payload)
    def msg(self, timeout=None):
        """next message: (type, payload)"""
        if timeout is not None: self.s.settimeout(timeout)
        def need(n):
            while len(self.buf) < n:
                try: d = self.s.recv(65536)
                except ConnectionResetError: d = b''
                if not d: raise Gone('connection closed')
                self.buf += d
        need(8); n, t = struct.unpack('>II', self.buf[:8])
        need(n + 8); m = self.buf[8:n + 8]; self.buf = self.buf[n + 8:]
        return t, m
    def req(self, cmd, payload=b''):
        self.send(cmd, payload)
        while 1:
            t, m = self.msg()
            if t & 0x80000000: self.events.append((t & 0x7fffffff,) + struct.unpack('>II', m[:8]) + (m[8:],)); continue
            if t & 0x02000000: raise Err(struct.unpack('<i', m[:4])[0])
            return m
    def flush(self):
        """all events sent up to now"""
        try: self.req(TAG_LIST)
        except Err: pass
        e = self.events; self.events = []; return e
    def add(self, name, type, count=1, attr=0):
        return struct.unpack('<i', self.req(TAG_ADD, struct.pack('<III', type, count, attr) + name.encode() + b'\0'))[0]
    def delete(self, i): return self.req(TAG_DEL, struct.pack('<i', i))
    def get(self, name): return struct.unpack('<iIIH', self.req(TAG_GET, b'\x01' + name.encode() + b'\0')[:14])
    def read(self, i, off, size): return self.req(TAG_READ, struct.pack('<iII', i, off, size))
    def write(self, i, off, data): return self.req(TAG_WRITE, struct.pack('<iI', i, off) + data)
    def mwrite(self, i, off, data, mask): return self.req(TAG_MWRITE, struct.pack('<iI', i, off) + data + mask)
    def event(self, i, byte, count, type, ev, size, bit=0, data=b''):
        return struct.unpack('<i', self.req(EVNT_ADD, struct.pack('<iIIIiIB', i, byte, count, type, ev, size, bit) + data))[0]
    def evdel(self, i, id): return self.req(EVNT_DEL, struct.pack('<iI', i, id))
    def evopt(self, i, id, opt): return self.req(EVNT_OPT, struct.pack('<iII', i, id, opt))
    def map(self, src, dst):
        """handles: (index, byte, bit, count, size, type)"""
        h = lambda t: struct.pack('<iIBIII', t[0], t[1], t[2], t[3], t[4], t[5])
        return struct.unpack('<i', self.req(MAP_ADD, h(src) + h(dst)))[0]
    def group(self, members):
        """members: (index, byte, bit, count, size, type)"""
        p = struct.pack('BB', len(members), 0)
        for t in members: p += struct.pack('<iIBIII', *t)
        return struct.unpack('<i', self.req(GRP_ADD, p))[0]
    def gread(self, g): return self.req(GRP_READ, struct.pack('<I', g))
    def gwrite(self, g, data): return self.req(GRP_WRITE, struct.pack('<I', g) + data)
    def atomic(self, i, byte, count, type, op, data, bit=0):
        return self.req(ATOMIC, struct.pack('<iIIIBHH', i, byte, count, type, bit, op, 0) + data)
    def ovrd(self, i, byte, data, mask): return self.req(ADD_OVRD, struct.pack('<iII', i, byte, 0) + data + mask)
    def ovrd_set(self, i, flag): return self.req(SET_OVRD, struct.pack('<iI', i, flag))
    def ovrd_get(self, i, byte, size): return self.req(GET_OVRD, struct.pack('<iII', i, byte, size))
    def ovrd_del(self, i, byte, mask): return self.req(DEL_OVRD, struct.pack('<iI', i, byte) + mask)
    def cdt(self, s): return struct.unpack('<I', self.req(CDT_CREATE, s.encode() + b'\0'))[0]

def check(cond, what):
    if not cond: print('FAIL: ' + what); sys.exit(1)
    print('ok: ' + what)
