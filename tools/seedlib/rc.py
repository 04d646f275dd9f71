import os, socket, time, threading
PORT = int(os.environ["DEMO_PORT"])
class Err(str): pass
class C:
    def __init__(self, timeout=10):
        for i in range(200):
            try:
                self.s = socket.create_connection(("127.0.0.1", PORT), timeout); break
            except OSError:
                time.sleep(0.05)
        self.f = self.s.makefile("rb")
    def send(self, *a):
        b = b"*%d\r\n" % len(a)
        for x in a:
            if isinstance(x, int): x = str(x)
            if isinstance(x, str): x = x.encode()
            b += b"$%d\r\n%s\r\n" % (len(x), x)
        self.s.sendall(b)
    def raw(self, b): self.s.sendall(b)
    def recv(self):
        l = self.f.readline()
        if not l: raise EOFError("connection closed")
        assert l.endswith(b"\r\n"), l
        k, v = l[:1], l[1:-2]
        if k == b"+": return v.decode()
        if k == b"-": return Err(v.decode())
        if k == b":": return int(v)
        if k == b"$":
            n = int(v)
            if n < 0: return None
            d = self.f.read(n + 2)
            assert d.endswith(b"\r\n"), d
            return d[:-2]
        if k == b"*":
            n = int(v)
            return None if n < 0 else [self.recv() for _ in range(n)]
        raise AssertionError("bad reply %r" % l)
    def __call__(self, *a):
        self.send(*a)
        return self.recv()
def want(got, exp, what=""):
    if got != exp:
        raise SystemExit("FAIL %s: got %r, expected %r" % (what, got, exp))
def iserr(x, what=""):
    if not isinstance(x, Err):
        raise SystemExit("FAIL %s: got %r, expected an error" % (what, x))
def par(fs):
    ts = [threading.Thread(target=f) for f in fs]
    [t.start() for t in ts]; [t.join() for t in ts]
