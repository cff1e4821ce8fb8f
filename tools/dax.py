"""A small client that speaks OpenDAX's wire protocol, and a server started in a scratch folder."""
import os, socket, struct, subprocess, sys, tempfile, time, shutil, atexit
MOD_REG, TAG_ADD, TAG_DEL, TAG_GET, TAG_LIST, TAG_READ, TAG_WRITE, TAG_MWRITE, EVNT_ADD, EVNT_DEL, EVNT_GET, EVNT_OPT, CDT_CREATE, CDT_GET, MAP_ADD, MAP_DEL, MAP_GET, GRP_ADD, GRP_DEL, GRP_READ, GRP_WRITE, GRP_MWRITE, ATOMIC, ADD_OVRD, DEL_OVRD, GET_OVRD, SET_OVRD = range(1, 28)
BOOL, BYTE, SINT, CHAR, WORD, INT, UINT, DWORD, DINT, UDINT, REAL, LWORD, LINT, ULINT, LREAL, TIME = 0x10, 3, 0x13, 0x23, 4, 0x14, 0x24, 5, 0x15, 0x25, 0x35, 6, 0x16, 0x26, 0x46, 0x36
QUEUE = 0x40000000
WRITE, CHANGE, SET, RESET, EQUAL, GREATER, LESS, DEADBAND, DELETED = range(2, 11)
class Server:
    def __init__(self, args=(), d=None):
        self.dir = d or tempfile.mkdtemp(prefix='daxdemo')
        atexit.register(self.stop)
        self.sock = os.path.join(self.dir, 'sock')
        conf = os.path.join(self.dir, 'c.conf'); open(conf, 'w').write('')
        s = socket.socket(); s.bind(('127.0.0.1', 0)); self.port = s.getsockname()[1]; s.close()
        self.args = [ '/repo/build/src/server/tagserver', '-C', conf, '-S', self.sock, '-I', '127.0.0.1', '-P', str(self.port)] + list(args)
        self.start()
    def start(self):
        self.p = subprocess.Popen(self.args, cwd=self.dir, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for i in range(100):
            try: s = socket.socket(socket.AF_UNIX); s.connect(self.sock); s.close(); return
            except OSError: time.sleep(0.05)
        raise SystemExit('server did not start')
    def kill(self, sig=9):
        self.p.send_signal(sig); self.p.wait()
        if os.path.exists(self.sock): os.unlink(self.sock)
    def stop(self):
        try: self.p.kill(); self.p.wait()
        except Exception: pass
        shutil.rmtree(self.dir, ignore_errors=True)
    def alive(self): return self.p.poll() is None
class Conn:
    def __init__(self, srv, name='m', reg=True):
        self.s = socket.socket(socket.AF_UNIX); self.s.connect(srv.sock); self.s.settimeout(5); self.ev = []
        if reg:
            t, d = self.req(MOD_REG, struct.pack('!II', 1000, 1) + name.encode() + b'\0'); assert t == 'ok', (t, d)
    def raw(self, b): self.s.sendall(b)
    def send(self, cmd, pay=b''): self.raw(struct.pack('!II', len(pay) + 8, cmd) + pay)
    def _n(self, n):
        b = b''
        while len(b) < n:
            x = self.s.recv(n - len(b))
            if not x: raise EOFError
            b += x
        return b
    def get(self):
        size, typ = struct.unpack('!II', self._n(8))
        return typ, self._n(size)
    def req(self, cmd, pay=b''):
        self.send(cmd, pay)
        while 1:
            typ, d = self.get()
            if typ & 0x80000000: self.ev.append((typ & 0xff, struct.unpack('!II', d[:8]), d[8:])); continue
            assert typ & 0xffff == cmd, (hex(typ), cmd)
            if typ & 0x02000000: return 'err', struct.unpack('i', d)[0]
            return 'ok', d
    def events(self, wait=0.3):
        self.s.settimeout(wait)
        try:
            while 1:
                typ, d = self.get()
                if typ & 0x80000000: self.ev.append((typ & 0xff, struct.unpack('!II', d[:8]), d[8:]))
        except (socket.timeout, TimeoutError): pass
        self.s.settimeout(5)
        e, self.ev = self.ev, []
        return e
    def num(self, r): return r[1] if r[0] == 'err' else (struct.unpack('i', r[1][:4])[0] if len(r[1]) >= 4 else 0)
    def tag_add(self, name, typ, count=1, attr=0): return self.num(self.req(TAG_ADD, struct.pack('III', typ, count, attr) + name.encode() + b'\0'))
    def tag_del(self, i): return self.req(TAG_DEL, struct.pack('i', i))
    def tag_get(self, name):
        r = self.req(TAG_GET, b'\1' + name.encode() + b'\0')
        return r if r[0] == 'err' else struct.unpack('=iIIH', r[1][:14]) + (r[1][14:].split(b'\0')[0].decode(),)
    def read(self, i, off, n):
        r = self.req(TAG_READ, struct.pack('iii', i, off, n)); return r[1]
    def write(self, i, off, d): return self.req(TAG_WRITE, struct.pack('ii', i, off) + bytes(d))
    def mwrite(self, i, off, d, m): return self.req(TAG_MWRITE, struct.pack('ii', i, off) + bytes(d) + bytes(m))
    def evnt_add(self, i, byte, count, typ, et, size, bit=0, data=b''): return self.num(self.req(EVNT_ADD, struct.pack('=iIIIIIB', i, byte, count, typ, et, size, bit) + bytes(data)))
    def handle(self, i, byte, bit, count, size, typ): return struct.pack('=iIBIII', i, byte, bit, count, size, typ)
    def map_add(self, s, d): return self.req(MAP_ADD, s + d)
    def group_add(self, hs, opt=0): return self.num(self.req(GRP_ADD, bytes([len(hs), opt]) + b''.join(hs)))
    def atomic(self, i, byte, count, typ, bit, op, data=b''): return self.req(ATOMIC, struct.pack('=iIIIBHH', i, byte, count, typ, bit, op, 0) + bytes(data))
    def cdt(self, s): return self.num(self.req(CDT_CREATE, s.encode() + b'\0'))
    def close(self): self.s.close()
