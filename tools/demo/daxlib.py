"""The library under test through ctypes, against a scratch tag server or a scripted one."""
import ctypes as C, os, socket, struct, sys, threading, time
L = C.CDLL(os.path.join(os.getcwd(), 'build/src/lib/libdax.so'))
RESP, ERRF, EVENT = 0x01000000, 0x02000000, 0x80000000
class Handle(C.Structure):
    _fields_ = [('index', C.c_int32), ('byte', C.c_uint32), ('bit', C.c_ubyte), ('count', C.c_uint32), ('size', C.c_uint32), ('type', C.c_uint32)]
class Id(C.Structure):
    _fields_ = [('index', C.c_int32), ('id', C.c_uint32)]
L.dax_init.restype = C.c_void_p
L.dax_type_to_string.restype = C.c_char_p
L.dax_string_to_type.restype = C.c_uint32
L.dax_group_add.restype = C.c_void_p
def quiet():
    n = os.open('/dev/null', os.O_WRONLY); os.dup2(n, 2)
class Module:
    """a module connected through libdax"""
    def __init__(self, path, name=b'demo', timeout=500, connect=True):
        self.ds = C.c_void_p(L.dax_init(name))
        a = [b'demo', b'-U', path.encode(), b'-O', str(timeout).encode()]
        v = (C.c_char_p * (len(a) + 1))(*a)
        self.keep = v
        L.dax_configure(self.ds, len(a), v, 0x04)
        self.rc = L.dax_connect(self.ds) if connect else None
    def call(self, fn, *a): return getattr(L, fn)(self.ds, *a)
    def thread(self, fn, *a, wait=5):
        """the result of the call made by another thread, None when it hangs"""
        r = []
        t = threading.Thread(target=lambda: r.append(self.call(fn, *a)), daemon=True); t.start(); t.join(wait)
        return r[0] if r else None
class Fake:
    """answers each request with what handler(cmd, payload) returns: (type, payload) or None or a list"""
    def __init__(self, path, handler):
        self.s = socket.socket(socket.AF_UNIX); self.s.bind(path); self.s.listen(4); self.h = handler; self.c = None
        threading.Thread(target=self.run, daemon=True).start()
    def recv(self, n):
        b = b''
        while len(b) < n:
            x = self.c.recv(n - len(b))
            if not x: raise EOFError
            b += x
        return b
    def send(self, typ, payload): self.c.sendall(struct.pack('>II', len(payload), typ) + payload)
    def run(self):
        try:
            self.c, _ = self.s.accept()
            while True:
                n, cmd = struct.unpack('>II', self.recv(8)); p = self.recv(n - 8)
                if cmd == 1 and p:
                    self.send(1 | RESP, struct.pack('=IHIQfdB', 1, 0xBCDE, 0x56789ABC, 0x123456789ABCDEF0, 3.14159265, -58765463.8766677, 0)); continue
                r = self.h(cmd, p)
                for m in (r if isinstance(r, list) else [r] if r else []): self.send(*m)
        except (EOFError, OSError): pass
