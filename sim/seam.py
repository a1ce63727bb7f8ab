"""
The simulated operating-system seam.

Importing this module replaces, for the whole process, the file-system entry
points of the Python runtime (open, the mutating os.* calls, directory listing,
the clock) by versions that - while a simulation context is active and the path
lies inside the scratch directory - number every operation, log it, order
directory listings from a seed, and apply the planned faults.  It must be
imported before anything that captures those functions (shutil, tempfile,
zipfile, tarfile, bagit, fs, multibag).

Outside an active context, or for paths outside the scratch directory, calls
pass straight through; but mutating calls made by the code under test outside
the scratch directory are refused.
"""
import builtins, io, os, sys, errno, hashlib, threading
import time as _time

_real_open = io.open
R = {n: getattr(os, n) for n in
     """open close read write mkdir rmdir remove unlink rename replace link symlink
        utime chmod truncate ftruncate scandir listdir chdir getcwd fdopen""".split()}
_real_time = _time.time
_real_perf = _time.perf_counter


class SimCrash(BaseException):
    """the simulated process has been killed"""


class SimHang(BaseException):
    """the simulated process exceeded its operation budget"""


class Escape(OSError):
    """the code under test tried to modify something outside the scratch area"""


def H(*parts):
    h = hashlib.blake2b(digest_size=8)
    for p in parts:
        h.update(repr(p).encode("utf-8", "surrogatepass"))
        h.update(b"\0")
    return int.from_bytes(h.digest(), "big")


ERR = {n: getattr(errno, n) for n in
       "EIO ENOSPC EACCES EMFILE EROFS EDQUOT ENOMEM EPERM EXDEV EMLINK EINTR ESTALE".split()}

READ_KINDS = ("open_r", "read", "list")
WRITE_KINDS = ("open_w", "write", "mkdir", "rmdir", "unlink", "rename", "link", "utime",
               "chmod", "truncate", "symlink")
# kinds that need disk space
SPACE_KINDS = ("open_w", "write", "mkdir", "link", "symlink")


class Ctx(object):
    """one simulated process: its faults, its view of the environment, its log"""

    def __init__(self, order=0, link="ok", short_r=0, short_w=0, bufsize=0, clock=None,
                 faults=(), maxops=400000, record=False, name=""):
        self.order = order            # seed of the directory listing order (None: sorted)
        self.link = link              # "ok" or an errno name, or "some"
        self.short_r = short_r        # every raw read returns at most this much if hashed so
        self.short_w = short_w
        self.bufsize = bufsize
        self.clock = dict((int(a), float(b)) for a, b in (clock or []))
        self.faults = {}
        self.sticky = []
        for f in faults:
            if "at" in f:
                self.faults.setdefault(int(f["at"]), f)
            else:
                self.sticky.append(f)
        self.maxops = maxops
        self.record = record
        self.name = name
        self.n = 0
        self.now = 1.6e9
        self.skew = 0.0
        self.advanced = 0.0
        self.dead = False
        self.fired = []               # (kind of fault, op kind, path)
        self.events = []
        self.kinds = {}
        self.digest = hashlib.blake2b(digest_size=16)
        self.sched = None
        self.cwd = None
        self.escapes = []
        self.free = None              # remaining disk space after a quota fault starts

    def env_from(self, env):
        for k in ("order", "link", "short_r", "short_w", "bufsize"):
            if k in env:
                setattr(self, k, env[k])
        if env.get("clock"):
            self.clock = dict((int(a), float(b)) for a, b in env["clock"])
        return self

    # -- the heart: every intercepted operation passes here
    def op(self, kind, rel, size=0):
        if self.dead:
            raise SimCrash()
        if self.sched is not None:
            self.sched.point(self)
            if self.dead:
                raise SimCrash()
        n = self.n
        self.n = n + 1
        if n > self.maxops:
            raise SimHang("more than %d operations" % self.maxops)
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        self.digest.update(("%s %s\n" % (kind, rel)).encode("utf-8", "surrogatepass"))
        if self.record:
            self.events.append((kind, rel))
        self.now += 0.001
        self.advanced += 0.001
        if n in self.clock:
            self.skew += self.clock[n]
            self.advanced += abs(self.clock[n])
            self.fired.append(("clock_jump", kind, rel))
        f = self.faults.get(n)
        if f is not None:
            return self._apply(f, kind, rel)
        for f in self.sticky:
            if n < f.get("from", 0):
                continue
            if "on" in f and kind not in f["on"]:
                continue
            if "path" in f and f["path"] != rel:
                continue
            if "under" in f and not (rel == f["under"] or rel.startswith(f["under"] + "/")):
                continue
            if "count" in f:
                if f.get("_left") is None:
                    f["_left"] = f["count"]
                if f["_left"] <= 0:
                    continue
                f["_left"] -= 1
            return self._apply(f, kind, rel)
        return None

    def _apply(self, f, kind, rel):
        do = f["do"]
        if do == "crash":
            self.fired.append(("crash", kind, rel))
            self.dead = True
            raise SimCrash()
        if do == "torn":
            if kind == "write":
                self.fired.append(("torn_write", kind, rel))
                return f
            self.fired.append(("crash", kind, rel))
            self.dead = True
            raise SimCrash()
        if do == "clean":        # crash at this op, cleanly, whatever its kind
            self.dead = True
            raise SimCrash()
        self.fired.append((do, kind, rel))
        raise OSError(ERR[do], "[simulated] " + os.strerror(ERR[do]), rel)

    def time(self):
        return self.now + self.skew


class _State(object):
    root = None           # scratch directory, realpath, no trailing slash
    ctx = None            # active context when not threaded
    tl = threading.local()
    threaded = False


S = _State()


def cur():
    if S.threaded:
        return getattr(S.tl, "ctx", None)
    return S.ctx


class active(object):
    """with active(ctx): the code inside runs as the simulated process ctx"""

    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        if S.threaded:
            S.tl.ctx = self.ctx
        else:
            assert S.ctx is None, "nested simulation contexts"
            S.ctx = self.ctx
        return self.ctx

    def __exit__(self, *a):
        if S.threaded:
            S.tl.ctx = None
        else:
            S.ctx = None
        return False


def set_root(path):
    S.root = os.path.realpath(path)


def _rel(path):
    """path relative to the scratch root, or None if outside"""
    if isinstance(path, int):
        return None
    path = os.fspath(path)
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if not path.startswith("/"):
        path = R["getcwd"]() + "/" + path
    path = os.path.normpath(path)
    root = S.root
    if root and (path == root or path.startswith(root + "/")):
        return path[len(root) + 1:]
    return None


def _guard(ctx, kind, path):
    ctx.escapes.append((kind, str(path)))
    raise Escape(errno.EACCES, "refused outside the scratch directory", str(path))


# ---------------------------------------------------------------------------- files
class SimFileIO(io.FileIO):
    _ctx = None
    _relp = ""
    _bare = False

    def _pick(self, n, short):
        # an unbuffered file hands a short count to code that a local file system never
        # shows one to: only transfers beneath a buffer are cut
        c = self._ctx
        self._k = getattr(self, "_k", 0) + 1
        if short and n > 1 and not self._bare:
            h = H("short", c.order, self._relp, self._k)
            if h % 3 == 0:
                return 1 + (h >> 8) % min(n, max(1, short))
        return n

    def readinto(self, b):
        c = self._ctx
        c.op("read", self._relp)
        m = memoryview(b).cast("B")
        n = self._pick(len(m), c.short_r)
        if n < len(m):
            return io.FileIO.readinto(self, m[:n])
        return io.FileIO.readinto(self, b)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        self._ctx.op("read", self._relp)
        return io.FileIO.read(self, self._pick(size, self._ctx.short_r))

    def readall(self):
        self._ctx.op("read", self._relp)
        return io.FileIO.readall(self)

    def write(self, b):
        c = self._ctx
        if c.dead:
            return memoryview(b).nbytes     # a dead process writes nothing
        f = c.op("write", self._relp)
        m = memoryview(b).cast("B")
        if f is not None:                   # torn write, then death
            k = int(len(m) * f.get("frac", 0.5))
            if k:
                io.FileIO.write(self, m[:k])
            c.dead = True
            raise SimCrash()
        n = self._pick(len(m), c.short_w)
        if n < len(m):
            return io.FileIO.write(self, m[:n])
        return io.FileIO.write(self, m)

    def truncate(self, size=None):
        c = self._ctx
        if c.dead:
            return 0
        c.op("truncate", self._relp)
        return io.FileIO.truncate(self, size)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    ctx = cur()
    if ctx is None or isinstance(file, int) or opener is not None:
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    rel = _rel(file)
    writing = any(c in mode for c in "wax+")
    if rel is None:
        if writing and os.fspath(file) not in ("/dev/null", b"/dev/null"):
            _guard(ctx, "open_w", file)
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = "b" in mode
    if binary and (encoding is not None or errors is not None or newline is not None):
        return _real_open(file, mode, buffering, encoding, errors, newline)   # raises
    rawmode = "".join(c for c in mode if c in "rwax+")
    ctx.op("open_w" if writing else "open_r", rel)
    raw = SimFileIO(file, rawmode)
    raw._ctx = ctx
    raw._relp = rel
    try:
        line_buffering = False
        if buffering == 1 and not binary:
            buffering = -1
            line_buffering = True
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            raw._bare = True
            return raw
        if buffering < 0 or buffering == 1:
            buffering = ctx.bufsize or io.DEFAULT_BUFFER_SIZE
        if "+" in rawmode:
            buf = io.BufferedRandom(raw, buffering)
        elif writing:
            buf = io.BufferedWriter(raw, buffering)
        else:
            buf = io.BufferedReader(raw, buffering)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering)
        text.mode = mode
        return text
    except BaseException:
        raw.close()
        raise


# ---------------------------------------------------------------------------- os calls
_fds = {}


def _wrap(name, kind, two=False):
    real = R[name]

    def f(path, *a, **k):
        ctx = cur()
        if ctx is None or isinstance(path, int):
            return real(path, *a, **k)
        rel = _rel(path)
        if rel is None:
            _guard(ctx, kind, path)
        if two:
            dst = a[0] if a else k.get("dst")
            rel2 = _rel(dst)
            if rel2 is None:
                _guard(ctx, kind, dst)
            rel = rel2
        ctx.op(kind, rel)
        return real(path, *a, **k)

    f.__name__ = name
    return f


def sim_link(src, dst, *a, **k):
    ctx = cur()
    if ctx is None:
        return R["link"](src, dst, *a, **k)
    rel = _rel(dst)
    if rel is None:
        _guard(ctx, "link", dst)
    ctx.op("link", rel)
    mode = ctx.link
    if mode == "some":
        h = H("link", ctx.order, rel) % 4
        mode = ("ok", "ok", "EMLINK", "EXDEV")[h]
    if mode != "ok":
        ctx.fired.append(("link_refused", "link", rel))
        raise OSError(ERR[mode], "[simulated] " + os.strerror(ERR[mode]), rel)
    return R["link"](src, dst, *a, **k)


class _Scan(object):
    def __init__(self, items):
        self._it = iter(items)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self._it = iter(())


def _order(ctx, rel, items, name):
    if ctx.order is None:
        return sorted(items, key=name)
    return sorted(items, key=lambda e: (H("ls", ctx.order, rel, name(e)), name(e)))


def _nm(e):
    e = e.name
    return os.fsdecode(e) if isinstance(e, bytes) else e


def _nm2(e):
    return os.fsdecode(e) if isinstance(e, bytes) else e


def sim_scandir(path="."):
    ctx = cur()
    if ctx is None or isinstance(path, int):
        return R["scandir"](path)
    rel = _rel(path)
    if rel is None:
        return R["scandir"](path)
    ctx.op("list", rel)
    with R["scandir"](path) as it:
        items = list(it)
    return _Scan(_order(ctx, rel, items, _nm))


def sim_listdir(path="."):
    ctx = cur()
    if ctx is None or isinstance(path, int):
        return R["listdir"](path)
    rel = _rel(path)
    if rel is None:
        return R["listdir"](path)
    ctx.op("list", rel)
    return _order(ctx, rel, R["listdir"](path), _nm2)


def sim_os_open(path, flags, *a, **k):
    ctx = cur()
    if ctx is None:
        return R["open"](path, flags, *a, **k)
    rel = _rel(path)
    writing = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
    if rel is None:
        if writing and os.fspath(path) != "/dev/null":
            _guard(ctx, "open_w", path)
        return R["open"](path, flags, *a, **k)
    ctx.op("open_w" if writing else "open_r", rel)
    fd = R["open"](path, flags, *a, **k)
    _fds[fd] = (ctx, rel)
    return fd


def sim_os_close(fd):
    _fds.pop(fd, None)
    return R["close"](fd)


def sim_os_write(fd, data):
    t = _fds.get(fd)
    if t is None or cur() is None:
        return R["write"](fd, data)
    ctx, rel = t
    if ctx.dead:
        return len(data)
    f = ctx.op("write", rel)
    if f is not None:
        k = int(len(data) * f.get("frac", 0.5))
        if k:
            R["write"](fd, bytes(data[:k]))
        ctx.dead = True
        raise SimCrash()
    return R["write"](fd, data)


def sim_os_read(fd, n):
    t = _fds.get(fd)
    if t is None or cur() is None:
        return R["read"](fd, n)
    t[0].op("read", t[1])
    return R["read"](fd, n)


def sim_time():
    ctx = cur()
    if ctx is None:
        return _real_time()
    return ctx.time()


def sim_chdir(path):
    ctx = cur()
    R["chdir"](path)
    if ctx is not None:
        ctx.cwd = R["getcwd"]()


def _nosendfile(*a, **k):
    raise OSError(errno.ENOSYS, "sendfile not available in the simulation")


def real_time():
    return _real_perf()


def install():
    builtins.open = sim_open
    io.open = sim_open
    for n, kind, two in (("mkdir", "mkdir", 0), ("rmdir", "rmdir", 0), ("remove", "unlink", 0),
                         ("unlink", "unlink", 0), ("rename", "rename", 1),
                         ("replace", "rename", 1), ("utime", "utime", 0),
                         ("chmod", "chmod", 0), ("truncate", "truncate", 0),
                         ("symlink", "symlink", 1)):
        setattr(os, n, _wrap(n, kind, bool(two)))
    os.link = sim_link
    os.scandir = sim_scandir
    os.listdir = sim_listdir
    os.open = sim_os_open
    os.close = sim_os_close
    os.write = sim_os_write
    os.read = sim_os_read
    os.chdir = sim_chdir
    for n in ("sendfile", "copy_file_range", "splice"):
        if hasattr(os, n):
            setattr(os, n, _nosendfile)
    _time.time = sim_time
    import shutil
    shutil._USE_CP_SENDFILE = False
    shutil._use_fd_functions = False
    for n in ("_HAS_FCOPYFILE",):
        if hasattr(shutil, n):
            setattr(shutil, n, False)


install()
