"""Stand-alone test bench for the demonstrations: builds the library and tools of the current directory's sources in a
scratch directory and runs them against meters played over a loopback TCP connection or a pseudo terminal."""
import atexit, ctypes, glob, os, pty, select, shutil, socket, subprocess, sys, tempfile, threading, time, tty

REPO = os.getcwd()
SCRATCH = tempfile.mkdtemp(prefix="demo")
atexit.register(shutil.rmtree, SCRATCH, True)
SHIM = r'''
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include "mbus/mbus.h"
mbus_frame *lab_frame(void) { mbus_frame *f = calloc(1, sizeof *f); return f; }
void lab_frame_free(mbus_frame *f) { if (f) { if (f->next) mbus_frame_free((mbus_frame *)f->next); free(f); } }
mbus_frame *lab_next(mbus_frame *f) { return (mbus_frame *)f->next; }
int lab_pack(mbus_frame *f, unsigned char *b, int n) { return mbus_frame_pack(f, b, n); }
long lab_stamp(mbus_frame *f) { return (long)f->timestamp; }
int lab_fd(mbus_handle *h) { return h->fd; }
int lab_type(mbus_frame *f) { return mbus_frame_type(f); }
mbus_handle *lab_tcp(const char *host, int port) { return mbus_context_tcp(host, port); }
char *lab_xml(mbus_frame *f, int norm) {
  mbus_frame_data *d = mbus_frame_data_new();
  char *x = 0;
  if (mbus_frame_data_parse(f, d) == 0) x = norm ? mbus_frame_data_xml_normalized(d) : mbus_frame_data_xml(d);
  if (d->data_var.record) mbus_data_record_free(d->data_var.record);
  free(d);
  return x;
}
int lab_read(mbus_handle *h, int secondary, const char *a, mbus_frame *f) {
  mbus_address x;
  memset(&x, 0, sizeof x);
  x.is_primary = !secondary;
  if (secondary) x.secondary = (char *)a; else x.primary = atoi(a);
  return mbus_read_slave(h, &x, f);
}
void lab_free(void *p) { free(p); }
'''
os.mkdir(SCRATCH + "/inc")
open(SCRATCH + "/config.h", "w").write('#define VERSION "0"\n#define PACKAGE_VERSION "0"\n')
FLAGS = ["-I" + SCRATCH + "/inc", "-std=gnu99", "-g", "-O1", "-w", "-fcommon", "-I" + REPO, "-I" + REPO + "/mbus"]


def cc(args, **kw):
    r = subprocess.run(["gcc"] + FLAGS + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        print(r.stdout)
        sys.exit(3)


_lib = None


def lib():
    global _lib
    if _lib is None:
        shim = os.path.join(SCRATCH, "shim.c")
        open(shim, "w").write(SHIM)
        so = os.path.join(SCRATCH, "liblab.so")
        cc(["-fPIC", "-shared", "-o", so, shim] + sorted(glob.glob(REPO + "/mbus/*.c")) + ["-lm"])
        L = _lib = ctypes.CDLL(so)
        for f in ("mbus_context_serial", "lab_tcp", "lab_frame", "lab_next", "lab_xml"):
            getattr(L, f).restype = ctypes.c_void_p
        L.lab_stamp.restype = ctypes.c_long
        L.mbus_tcp_set_timeout_set.argtypes = [ctypes.c_double]
    return _lib


def P(x):
    return ctypes.c_void_p(x)


def program(name, source, extra=()):
    """a program linked with the library sources"""
    c = os.path.join(SCRATCH, name + ".c")
    open(c, "w").write(source)
    exe = os.path.join(SCRATCH, name)
    cc(list(extra) + ["-o", exe, c] + sorted(glob.glob(REPO + "/mbus/*.c")) + ["-lm"])
    return exe


def tool(name):
    exe = os.path.join(SCRATCH, name)
    if not os.path.exists(exe):
        cc(["-o", exe, REPO + "/bin/" + name + ".c"] + sorted(glob.glob(REPO + "/mbus/*.c")) + ["-lm"])
    return exe


def run(args, timeout=60, **kw):
    """(exit status, stdout, stderr)"""
    r = subprocess.run([str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=SCRATCH, **kw)
    return r.returncode, r.stdout.decode("latin1"), r.stderr.decode("latin1")


# ------------------------------------------------------------------ frames
def short(c, a):
    return bytes([0x10, c, a, (c + a) & 255, 0x16])


def long(c, a, ci, data=b""):
    p = bytes([c, a, ci]) + data
    return bytes([0x68, len(p), len(p), 0x68]) + p + bytes([sum(p) & 255, 0x16])


ACK = b"\xe5"


def split(buf):
    """complete frames at the start of buf, and the rest"""
    out = []
    while buf:
        if buf[0] == 0xE5:
            out.append(buf[:1]); buf = buf[1:]
        elif buf[0] == 0x10:
            if len(buf) < 5: break
            out.append(buf[:5]); buf = buf[5:]
        elif buf[0] == 0x68:
            if len(buf) < 4: break
            n = buf[1] + 6
            if len(buf) < n: break
            out.append(buf[:n]); buf = buf[n:]
        else:
            buf = buf[1:]
    return out, buf


class Meter:
    def __init__(self, addr=1, ident="12345678", man="2423", ver=1, med=7, telegrams=None):
        self.addr, self.ident, self.ver, self.med = addr, ident, ver, med
        self.man = bytes.fromhex(man)
        self.telegrams = telegrams or [bytes.fromhex("0413") + (1234).to_bytes(4, "little")]
        self.selected = False
        self.cursor, self.fcb, self.last = 0, None, None
        self.access = 0
        self.log = []

    def sec(self):
        return bytes.fromhex(self.ident)[::-1] + self.man + bytes([self.ver, self.med])

    def text(self):
        return self.ident + (self.man[::-1].hex() if False else self.man.hex()).upper() + "%02X%02X" % (self.ver, self.med)

    def telegram(self, i):
        return long(0x08, self.addr, 0x72, self.sec() + bytes([self.access & 255, 0, 0, 0]) + self.telegrams[i])

    def match(self, m):
        s = self.sec()
        for k in range(4):
            for sh in (0, 4):
                n = (m[k] >> sh) & 15
                if n != 15 and n != (s[k] >> sh) & 15: return False
        if m[4:6] != b"\xff\xff" and m[4:6] != s[4:6]: return False
        return all(m[k] == 255 or m[k] == s[k] for k in (6, 7))

    def handle(self, f):
        """the answer of this meter to a master frame, or None"""
        if f[0] == 0x10:
            c, a = f[1], f[2]
            if not (a in (self.addr, 254) or (a == 253 and self.selected) or a == 255): return None
            if c == 0x40:
                self.fcb, self.last, self.cursor = None, None, 0
                if a == 253: self.selected = False
                return ACK if a != 255 else None
            if c & 0x4F == 0x4B:
                fcb = c & 0x20 if c & 0x10 else None
                if fcb is not None and fcb == self.fcb and self.last is not None:
                    return self.telegram(self.last)
                if self.fcb is None and self.last is None or fcb is None:
                    self.cursor = 0 if self.last is None else self.cursor
                i = self.cursor % len(self.telegrams)
                self.cursor = i + 1
                self.fcb, self.last = fcb, i
                return self.telegram(i)
            return None
        if f[0] == 0x68:
            c, a, ci = f[4], f[5], f[6]
            if a == 253 and ci == 0x52:
                self.selected = self.match(f[7:15])
                if self.selected: self.fcb, self.last, self.cursor = None, None, 0
                return ACK if self.selected else None
            if a in (self.addr, 254) or (a == 253 and self.selected):
                if c & 0x4F == 0x43:
                    self.log.append(f)
                    if ci == 0x51 and f[7:9] == b"\x01\x7a": self.addr = f[9]
                    return ACK
        return None


class Bus:
    """meters; hook(n, frame, replies) may return a list of (delay, bytes) to send instead of the replies"""
    def __init__(self, meters=(), hook=None, echo=False):
        self.meters, self.hook, self.echo = list(meters), hook, echo
        self.requests = []

    def answer(self, f):
        n = len(self.requests)
        self.requests.append(f)
        r = [x for x in (m.handle(f) for m in self.meters) if x is not None]
        out = [(0, f)] if self.echo else []
        if self.hook:
            h = self.hook(n, f, r)
            if h is not None: return out + list(h)
        if len(r) > 1 and all(x == ACK for x in r):
            return out + [(0, ACK)]                      # equal answers merge
        if len(r) > 1:
            m = bytearray(r[0])
            for o in r[1:]:
                for i in range(min(len(m), len(o))): m[i] &= o[i]
            return out + [(0, bytes(m))]
        return out + [(0, x) for x in r]


class Gateway(threading.Thread):
    """a TCP gateway; connection scripts may be replaced by `serve`"""
    def __init__(self, bus=None, serve=None):
        super().__init__(daemon=True)
        self.bus, self.serve = bus, serve
        self.s = socket.socket()
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.s.bind(("127.0.0.1", 0))
        self.s.listen(8)
        self.port = self.s.getsockname()[1]
        self.received = b""
        self.start()

    def run(self):
        while True:
            try: c, _ = self.s.accept()
            except OSError: return
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            threading.Thread(target=self.talk, args=(c,), daemon=True).start()

    def talk(self, c):
        try:
            if self.serve: return self.serve(c)
            buf = b""
            while True:
                d = c.recv(4096)
                if not d: break
                self.received += d
                buf += d
                fs, buf = split(buf)
                for f in fs:
                    for delay, b in self.bus.answer(f):
                        if b == "close": c.close(); return
                        if delay: time.sleep(delay)
                        if b: c.sendall(b)
        except OSError:
            pass
        finally:
            c.close()


class Line(threading.Thread):
    """a serial line (pseudo terminal) named self.name"""
    def __init__(self, bus):
        super().__init__(daemon=True)
        self.bus = bus
        self.m, self.s = pty.openpty()
        tty.setraw(self.s)
        self.name = os.ttyname(self.s)                   # self.s stays open: no hang-up
        self.received = b""
        self.start()

    def run(self):
        buf = b""
        while True:
            try: d = os.read(self.m, 4096)
            except OSError: return
            self.received += d
            buf += d
            fs, buf = split(buf)
            for f in fs:
                for delay, b in self.bus.answer(f):
                    if delay: time.sleep(delay)
                    if b: os.write(self.m, b)


def tcp_handle(port, timeout=1.0):
    L = lib()
    L.mbus_tcp_set_timeout_set(timeout)
    h = L.lab_tcp(b"127.0.0.1", port)
    assert L.mbus_connect(P(h)) == 0
    return h


def serial_handle(name, baud=None):
    L = lib()
    h = L.mbus_context_serial(name.encode())
    assert L.mbus_connect(P(h)) == 0
    if baud: L.mbus_serial_set_baudrate(P(h), ctypes.c_long(baud))
    return h


def frames(f):
    """the bytes of every frame in a chain"""
    L, out = lib(), []
    while f:
        b = ctypes.create_string_buffer(600)
        n = L.lab_pack(P(f), b, 600)
        out.append(b.raw[:n] if n > 0 else None)
        f = L.lab_next(P(f))
    return out


def request(h, addr, limit=0):
    """(result, frames)"""
    L = lib()
    f = L.lab_frame()
    r = L.mbus_sendrecv_request(P(h), addr, P(f), limit)
    return r, frames(f)


def recv(h):
    L = lib()
    f = L.lab_frame()
    r = L.mbus_recv_frame(P(h), P(f))
    return r, frames(f)[0]


def check(ok, text):
    if not ok:
        print("FAILED: " + text)
        sys.stdout.flush()
        os._exit(1)


def done():
    print("ok")
    sys.stdout.flush()
    shutil.rmtree(SCRATCH, True)
    os._exit(0)
