"""Drives target/debug/libsudo_pair.so the way sudo does, with a scratch
socket directory and pairs that are threads of this process."""
import ctypes as C, os, signal, socket, shutil, stat, sys, tempfile, threading, time

u32, p, ci = C.c_uint, C.c_void_p, C.c_int
PRINTF = C.CFUNCTYPE(ci, ci, C.c_char_p, p, p, p)
OPEN = C.CFUNCTYPE(ci, u32, p, PRINTF, p, p, p, ci, p, p, p, p)
CLOSE = C.CFUNCTYPE(None, ci, ci)
VERSION = C.CFUNCTYPE(ci, ci)
LOG = C.CFUNCTYPE(ci, p, u32, p)
WINSIZE = C.CFUNCTYPE(ci, u32, u32, p)


class Io(C.Structure):
    _fields_ = [("type", u32), ("version", u32)] + [(n, p) for n in (
        "open", "close", "show_version", "log_ttyin", "log_ttyout", "log_stdin",
        "log_stdout", "log_stderr", "register_hooks", "deregister_hooks",
        "change_winsize", "log_suspend", "event_alloc")]


def b(x):
    return x if isinstance(x, bytes) else str(x).encode()


def array(l):
    a = (C.c_char_p * (len(l) + 1))(*[b(x) for x in l], None)
    return a


class Plugin:
    """One session as uid 1000 running /bin/cat as root."""

    def __init__(self, lib="target/debug/libsudo_pair.so"):
        self.dir = tempfile.mkdtemp(prefix="drive.")
        scratch.append(self.dir)
        os.chmod(self.dir, 0o755)
        self.sockets = self.dir + "/sockets"
        os.mkdir(self.sockets)
        os.chmod(self.sockets, 0o755)
        self.io = Io.in_dll(C.CDLL(os.path.abspath(lib)), "sudo_pair")
        self.settings = {"progname": "sudo", "plugin_dir": "/usr/libexec/sudo", "plugin_path": "/usr/libexec/sudo/sudo_pair.so"}
        self.user_info = {"cwd": "/home/user", "egid": 1000, "euid": os.geteuid(), "gid": 1000, "groups": "1000,20",
                          "host": "host", "pgid": 4000, "pid": 4242, "ppid": 3999, "uid": 1000, "user": "user"}
        self.command_info = {"command": "/bin/cat", "runas_uid": 0, "runas_gid": 0, "runas_groups": 0,
                             "iolog_ttyout": "true", "iolog_stdout": "true", "iolog_stderr": "true"}
        self.options = {"socket_dir": self.sockets, "user_prompt_path": self.dir + "/user", "pair_prompt_path": self.dir + "/pair",
                        "binary_path": "/usr/bin/sudo_approve"}
        self.argv = ["cat", "/etc/motd"]
        self.api = 1 << 16 | 17
        self.text = b""
        self.keep = []
        with open(self.dir + "/pair", "w") as f:
            f.write("go?")
        with open(self.dir + "/user", "w") as f:
            f.write("wait")

    def path(self):
        return "%s/%s.%s.sock" % (self.options["socket_dir"], self.user_info["uid"], self.user_info["pid"])

    def open(self):
        def show(_, fmt, a, _b, _c):
            t = C.string_at(a) if fmt == b"%s" else fmt
            self.text += t
            return len(t)
        kv = lambda d: array([k.encode() + b"=" + b(v) for k, v in d.items()])
        a = [PRINTF(show), kv(self.settings), kv(self.user_info), kv(self.command_info), array(self.argv), array(["PATH=/bin"]),
             array([b(k) + b"=" + b(v) for k, v in self.options.items()])]
        self.keep.append(a)
        at = lambda x: C.cast(x, p)
        return OPEN(self.io.open)(self.api, None, a[0], at(a[1]), at(a[2]), at(a[3]), len(self.argv), at(a[4]), at(a[5]), at(a[6]), None)

    def close(self, status=0, error=0):
        CLOSE(self.io.close)(status, error)

    def log(self, stream, data):
        data = b(data)
        buf = C.create_string_buffer(data, len(data) + 1)
        return LOG(getattr(self.io, "log_" + stream))(C.cast(buf, p), len(data), None)

    def winsize(self, lines, cols):
        return WINSIZE(self.io.change_winsize)(lines, cols, None)

    def show_version(self, verbose=1):
        return VERSION(self.io.show_version)(verbose)


class Pair(threading.Thread):
    """Connects once the socket is ready, then says `answer`."""

    def __init__(self, plugin, answer=b"y", prompt=b"go?", read=True):
        super().__init__(daemon=True)
        self.plugin, self.answer, self.prompt, self.read = plugin, answer, prompt, read
        self.seen, self.stat, self.s = b"", None, None
        self.start()

    def run(self):
        path = self.plugin.path()
        last = None
        while True:
            # connecting earlier would skip the change of owner and mode;
            # as root we could, so wait until nothing changes any more
            try:
                st = os.stat(path)
            except OSError:
                st = None
            if st and stat.S_IMODE(st.st_mode) & 0o222:
                time.sleep(0.05)
                self.stat = os.stat(path)
                self.s = socket.socket(socket.AF_UNIX)
                try:
                    self.s.connect(path)
                    break
                except OSError:
                    pass
            time.sleep(0.005)
        while not self.seen.endswith(self.prompt):
            x = self.s.recv(4096)
            if not x:
                return
            self.seen += x
        if self.answer:
            self.s.sendall(self.answer)
        if self.read:
            self.drain()

    def drain(self):
        while True:
            try:
                x = self.s.recv(65536)
            except OSError:
                return
            if not x:
                return
            self.seen += x

    def settle(self, want, t=5):
        """Waits until the pair has seen `want`, or for t seconds."""
        end = time.time() + t
        while self.seen != want and time.time() < end:
            time.sleep(0.01)
        return self.seen == want


def need(ok, why):
    if not ok:
        print("FAIL:", why)
        end(1)


def end(code=0):
    for d in scratch:
        shutil.rmtree(d, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def too_long():
    time.sleep(100)
    print("FAIL: it never ended")
    end(1)


scratch = []
threading.Thread(target=too_long, daemon=True).start()
