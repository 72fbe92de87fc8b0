"""File-system seam.

Python's file API (open, os.*, tempfile, pathlib, shutil through them) is
wrapped once, before the code under test is imported.  Outside a simulated run,
or for paths outside the run's scratch directory, the wrappers call straight
through.  Inside, every call that changes the file system is one numbered step
of the current operation, and the plan's faults decide what happens there:

    crash        the process dies before/in the middle of/after the step
    power        the machine dies; only what was made durable survives
    enospc       the disk is full (partial write first), from here on
    eio          the step fails with EIO (writes may have been partly done)
    emfile, eacces, erofs   the file cannot be opened for writing
    kbi, memory  KeyboardInterrupt / MemoryError is raised at the step
    short        a raw write transfers fewer bytes than asked (legal)
    read-eio, read-emfile, read-eacces, read-kbi, read-short   while reading

Durability model for `power`: metadata operations (create, truncate, rename,
unlink, mkdir) reach the disk in order and an fsync makes all earlier ones
durable; file data are durable up to the file's last fsync, later data survive
not at all / entirely / as a prefix / as zeros, as the plan says.
"""

import builtins
import errno
import io
import os
import shutil
import tempfile
import types

FS = None           # the active SimFS of this process, or None
_o = types.SimpleNamespace()    # originals

WRITE_FAULTS = ("crash", "power", "enospc", "eio", "emfile", "eacces", "erofs",
                "kbi", "memory", "short")
READ_FAULTS = ("read-eio", "read-emfile", "read-eacces", "read-kbi", "read-short")
APPLIES = {"enospc": ("create", "write", "mkdir"),
           "eio": ("write", "fsync", "close", "replace", "create", "truncate"),
           "emfile": ("create",), "eacces": ("create", "replace", "mkdir"),
           "erofs": ("create", "replace", "mkdir"), "short": ("write",)}
ERRNO = {"enospc": errno.ENOSPC, "eio": errno.EIO, "emfile": errno.EMFILE,
         "eacces": errno.EACCES, "erofs": errno.EROFS, "read-eio": errno.EIO,
         "read-emfile": errno.EMFILE, "read-eacces": errno.EACCES}


def oserror(kind, path=None):
    no = ERRNO[kind]
    return OSError(no, os.strerror(no), path)


class SimFS:
    def __init__(self, root, ctx, die):
        self.root = root.rstrip("/")
        self.ctx, self.die = ctx, die
        self.fds = {}
        self.names = 0
        self.quiet = 0
        self.begin({}, ())

    # -- operations --------------------------------------------------------
    def begin(self, tuning, faults):
        """Start the next operation: tuning and faults come from the plan."""
        self.buffer = tuning.get("buffer", 8192)
        self.step = 0
        self.rstep = 0
        self.counts = {}
        self.faults = [dict(f) for f in faults]
        for f in self.faults:
            self.ctx.faults_set[f["kind"]] += 1
        self.events = []
        self.meta_synced = 0
        self.inodes = {}
        self.next_ino = 0
        self.base = None
        if any(f["kind"] == "power" for f in self.faults):
            self.base = self.snapshot()
            self.base_dirs = self.dirs()

    def end(self):
        self.faults = []

    def returned(self):
        """The library call has returned: power may be lost right now."""
        for f in self.faults:
            if f.get("on") == "return" and not f.get("done"):
                f["done"] = True
                self.ctx.fault(f["kind"])
                self._strike(f)

    def inside(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not p.startswith("/"):
            p = os.path.join(os.getcwd(), p)
        p = os.path.normpath(p)
        return p if p == self.root or p.startswith(self.root + "/") else None

    def rel(self, path):
        return path[len(self.root) + 1:]

    # -- looking at the disk (harness side) --------------------------------
    def snapshot(self):
        out = {}
        for d, _, files in os.walk(self.root):
            for f in files:
                p = os.path.join(d, f)
                with _o.open(p, "rb") as h:
                    out[self.rel(p)] = h.read()
        return out

    def dirs(self):
        return sorted(self.rel(os.path.join(d, s)) for d, subs, _ in os.walk(self.root) for s in subs)

    # -- fault decision ----------------------------------------------------
    def _due(self, kind, step, nth, reading=False):
        """Faults which fire at this step, in plan order."""
        due = []
        for f in self.faults:
            if f["kind"].startswith("read-") != reading or f.get("done"):
                continue
            if not reading and kind not in APPLIES.get(f["kind"], (kind,)):
                continue
            if "on" in f:
                if f["on"] != kind or nth < f.get("nth", 0):
                    continue
            elif step < f.get("at", 0):
                continue
            if not (f["kind"] == "enospc" and f.get("persist", True)):
                f["done"] = True
            due.append(f)
        return due

    def mutate(self, kind, path, do, event=None, partial=None):
        """Perform one file-system changing step, or the fault due there."""
        step, nth = self.step, self.counts.get(kind, 0)
        self.step += 1
        self.counts[kind] = nth + 1
        self.ctx.ev("fs", kind, path)
        after = []
        for f in self._due(kind, step, nth):
            k, when = f["kind"], f.get("when", "before")
            f["hit"] = kind
            if not f.get("seen"):
                f["seen"] = True
                self.ctx.fault(k)
            if k in ("crash", "power", "kbi", "memory"):
                if when == "after":
                    after.append(f)
                    continue
                if when == "mid" and partial:
                    partial(f.get("part", 0.5))
                self._strike(f)
            elif k == "short":
                return partial(f.get("part", 0.5), at_least=1)
            else:
                if partial and f.get("part"):
                    partial(f["part"])
                if kind == "close":
                    do()
                raise oserror(k, path)
        result = do()
        if event is not None:
            self.record(event)
        for f in after:
            self._strike(f)
        return result

    def _strike(self, f):
        if f["kind"] == "kbi":
            raise KeyboardInterrupt("injected")
        if f["kind"] == "memory":
            raise MemoryError("injected")
        if f["kind"] == "power":
            self.quiet += 1
            self.power_loss(f)
        self.die(f["kind"])

    def reading(self, kind, path):
        """One step of reading; returns True for a short read."""
        step, nth = self.rstep, self.counts.get("r:" + kind, 0)
        self.rstep += 1
        self.counts["r:" + kind] = nth + 1
        for f in self.faults:
            k = f["kind"]
            if not k.startswith("read-") or f.get("done") or step < f.get("at", 0):
                continue
            if k in ("read-emfile", "read-eacces") and kind != "open":
                continue
            if k in ("read-eio", "read-short") and kind != "read":
                continue
            if f.get("path") and not path.endswith(f["path"]):
                continue
            f["done"] = True
            self.ctx.fault(k)
            if k == "read-short":
                return True
            if k == "read-kbi":
                raise KeyboardInterrupt("injected")
            raise oserror(k, path)
        return False

    # -- durability --------------------------------------------------------
    def ino(self, path, new=False):
        if new or path not in self.inodes:
            self.inodes[path] = self.next_ino
            self.next_ino += 1
        return self.inodes[path]

    def record(self, event):
        kind = event[0]
        if kind == "create":        # ("create", path, truncated)
            fresh = event[2] == "new"
            event = ("create", event[1], self.ino(event[1], new=fresh), event[2])
        elif kind in ("write", "fsync", "truncate"):
            event = (kind, self.ino(event[1])) + tuple(event[2:])
        elif kind == "rename":
            i = self.ino(event[1])
            event = ("rename", event[1], event[2], i)
            del self.inodes[event[1]]
            self.inodes[event[2]] = i
        elif kind == "link":
            event = ("link", event[1], event[2], self.ino(event[1]))
            self.inodes[event[2]] = event[3]
        elif kind == "unlink":
            event = ("unlink", event[1], self.ino(event[1]))
            del self.inodes[event[1]]
        self.events.append(event)

    def power_loss(self, f):
        """Rebuild the disk as it is found after losing power now."""
        if self.base is None:
            raise RuntimeError("power loss without base snapshot")
        META = ("create", "rename", "link", "unlink", "truncate", "mkdir", "rmdir")
        last = max([i for i, e in enumerate(self.events) if e[0] in ("fsync", "dirsync")],
                   default=-1)
        metas = [i for i, e in enumerate(self.events) if e[0] in META]
        must = len([i for i in metas if i < last])
        keep = must + int(round(f.get("meta", 1.0) * (len(metas) - must)))
        kept = set(metas[:keep])
        mode = f.get("data", "none")
        # inode contents
        names, data, dirs = {}, {}, set(self.base_dirs)
        first = {}
        for i, e in enumerate(self.events):     # which inode each base file had
            if e[0] == "create" and e[3] != "new":
                first.setdefault(self.rel(e[1]), e[2])
            elif e[0] in ("rename", "link"):
                first.setdefault(self.rel(e[1]), e[3])
            elif e[0] == "unlink":
                first.setdefault(self.rel(e[1]), e[2])
        fresh = {e[2] for e in self.events if e[0] == "create" and e[3] == "new"}
        for p, b in self.base.items():
            i = first.get(p)
            if i is None or i in fresh:
                i = ("base", p)
            names[p] = i
            data[i] = bytearray(b)
        synced = {}
        for i, e in enumerate(self.events):
            if e[0] == "fsync":
                synced[e[1]] = i
        for i, e in enumerate(self.events):
            k = e[0]
            if k in META and i not in kept:
                continue
            if k == "create":
                names[self.rel(e[1])] = e[2]
                if e[3] in ("new", "trunc"):
                    data[e[2]] = bytearray()
                data.setdefault(e[2], bytearray())
            elif k == "truncate":
                d = data.setdefault(e[1], bytearray())
                del d[e[2]:]
            elif k == "write":
                _, n, off, b = e
                d = data.setdefault(n, bytearray())
                if i > synced.get(n, -1):
                    if mode == "none":
                        continue
                    if mode == "zeros":
                        b = bytes(len(b))
                    elif mode == "prefix":
                        later = [j for j, w in enumerate(self.events)
                                 if w[0] == "write" and w[1] == n and j > synced.get(n, -1)]
                        if later.index(i) >= (len(later) + 1) // 2:
                            continue
                        if later.index(i) == (len(later) + 1) // 2 - 1:
                            b = b[:(len(b) + 1) // 2]
                if len(d) < off:
                    d.extend(bytes(off - len(d)))
                d[off:off + len(b)] = b
            elif k == "rename":
                a, c = self.rel(e[1]), self.rel(e[2])
                names.pop(a, None)
                names[c] = e[3]
                data.setdefault(e[3], bytearray())
            elif k == "link":
                names[self.rel(e[2])] = e[3]
            elif k == "unlink":
                names.pop(self.rel(e[1]), None)
            elif k == "mkdir":
                dirs.add(self.rel(e[1]))
            elif k == "rmdir":
                dirs.discard(self.rel(e[1]))
        for entry in os.listdir(self.root):
            p = os.path.join(self.root, entry)
            shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else _o.unlink(p)
        for d in sorted(dirs):
            os.makedirs(os.path.join(self.root, d), exist_ok=True)
        for p, i in names.items():
            full = os.path.join(self.root, p)
            if not os.path.isdir(os.path.dirname(full)):
                continue
            with _o.open(full, "wb") as h:
                h.write(bytes(data.get(i, b"")))


class SimRaw(io.FileIO):
    """Raw file whose writes, reads and close are steps of the simulator."""

    def __init__(self, path, mode, closefd=True, opener=None, track=None):
        self._path = track or path
        self._mut = False
        super().__init__(path, mode, closefd=closefd, opener=opener)
        self._mut = self.writable()
        self._fs = FS
        if FS is not None:
            FS.fds[self.fileno()] = self._path

    def write(self, b):
        b = bytes(b)
        fs = FS
        if fs is None or fs.quiet:
            return super().write(b)
        sup = super()

        def put(data):
            off = sup.seek(0, 2) if "a" in self.mode else sup.tell()
            n = sup.write(data)
            fs.record(("write", self._path, off, data[:n]))
            return n

        def partial(part, at_least=0):
            n = max(at_least, int(len(b) * part))
            return put(b[:n]) if n else 0
        return fs.mutate("write", self._path, lambda: put(b), partial=partial)

    def truncate(self, size=None):
        fs = FS
        if fs is None or fs.quiet:
            return super().truncate(size)
        sup = super()
        n = sup.tell() if size is None else size
        return fs.mutate("truncate", self._path, lambda: sup.truncate(size),
                         event=("truncate", self._path, n))

    def readinto(self, buf):
        fs = FS
        if fs is not None and not fs.quiet and fs.reading("read", self._path) and len(buf) > 1:
            return super().readinto(memoryview(buf)[:max(1, len(buf) // 3)])
        return super().readinto(buf)

    def read(self, size=-1):
        fs = FS
        if fs is not None and not fs.quiet and size is not None and size > 1 \
                and fs.reading("read", self._path):
            size = max(1, size // 3)
        return super().read(size)

    def readall(self):
        chunks = []
        while True:
            fs = FS
            short = fs is not None and not fs.quiet and fs.reading("read", self._path)
            c = super().read(7 if short else 65536)
            if not c:
                return b"".join(chunks)
            chunks.append(c)

    def close(self):
        if self.closed:
            return
        fs = FS
        sup = super()
        try:
            fd = self.fileno()
        except ValueError:
            fd = None
        if fs is not None and fs is getattr(self, "_fs", None) and self._mut and not fs.quiet:
            self._mut = False
            try:
                fs.mutate("close", self._path, sup.close)
            finally:
                fs.fds.pop(fd, None)
                sup.close()
        else:
            if fs is not None and fd is not None:
                fs.fds.pop(fd, None)
            sup.close()


def _sim_open(file, mode="r", buffering=-1, encoding=None, errors=None,
              newline=None, closefd=True, opener=None):
    fs = FS
    track = None
    if fs is None or fs.quiet:
        return _o.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(file, int):
        track = fs.fds.get(file)
        if track is None:
            return _o.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    else:
        track = fs.inside(file)
        if track is None:
            return _o.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    # Validation as the original does, on a harmless file.
    if not isinstance(mode, str) or set(mode) - set("rwxabt+U") or not set(mode) & set("rwxa"):
        return _o.open(os.devnull, mode, buffering, encoding, errors, newline)
    text = "b" not in mode
    rawmode = mode.replace("b", "").replace("t", "").replace("U", "r")
    writing = any(c in mode for c in "wxa+")

    def make():
        return SimRaw(file, rawmode, closefd=closefd, opener=opener, track=track)
    if isinstance(file, int) or opener is not None:
        raw = make()
    elif writing:
        exists = os.path.lexists(track)
        if not exists and not os.path.isdir(os.path.dirname(track)):
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), track)
        if not exists and "r" in mode:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), track)
        if exists and "x" in mode:
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), track)
        how = "new" if not exists else ("trunc" if "w" in mode else "open")
        raw = fs.mutate("create", track, make, event=("create", track, how))
    else:
        fs.reading("open", track)
        raw = make()
    try:
        if buffering == 0:
            if text:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = buffering if buffering > 1 else fs.buffer
        if "+" in mode:
            buf = io.BufferedRandom(raw, size)
        elif writing:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if not text:
            return buf
        t = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
        t._CHUNK_SIZE = max(1, min(8192, fs.buffer))
        t.mode = mode
        return t
    except BaseException:
        raw.close()
        raise


def _wrap2(name, kind):
    orig = getattr(os, name)
    setattr(_o, name, orig)

    def wrapper(src, dst, *args, **kwargs):
        fs = FS
        if fs is None or fs.quiet:
            return orig(src, dst, *args, **kwargs)
        a, b = fs.inside(src), fs.inside(dst)
        if a is None and b is None:
            return orig(src, dst, *args, **kwargs)
        event = (kind, a, b) if os.path.isfile(a) else None
        if kind != "link" and name == "rename" and os.path.isdir(b):
            event = None
        return fs.mutate("replace", b, lambda: orig(src, dst, *args, **kwargs), event=event)
    setattr(os, name, wrapper)


def _wrap1(name, kind):
    orig = getattr(os, name)
    setattr(_o, name, orig)

    def wrapper(path, *args, **kwargs):
        fs = FS
        p = None if fs is None or fs.quiet else fs.inside(path)
        if p is None or kwargs.get("dir_fd") is not None:
            return orig(path, *args, **kwargs)
        if kind == "unlink":
            if not os.path.lexists(p):
                return orig(path, *args, **kwargs)
            event = ("unlink", p)
        else:
            event = (kind, p)
        return fs.mutate(kind, p, lambda: orig(path, *args, **kwargs), event=event)
    setattr(os, name, wrapper)


def install():
    _o.open = builtins.open
    builtins.open = _sim_open
    io.open = _sim_open
    tempfile._io = types.SimpleNamespace(**{**vars(io), "open": _sim_open})
    shutil._USE_CP_SENDFILE = False

    for name in ("replace", "rename"):
        _wrap2(name, "rename")
    _wrap2("link", "link")
    for name, kind in (("remove", "unlink"), ("unlink", "unlink"),
                       ("mkdir", "mkdir"), ("rmdir", "rmdir")):
        _wrap1(name, kind)

    _o.os_open, _o.os_write, _o.os_close = os.open, os.write, os.close
    _o.fsync, _o.fdatasync = os.fsync, os.fdatasync
    _o.truncate, _o.ftruncate = os.truncate, os.ftruncate

    def os_open(path, flags, *args, **kwargs):
        fs = FS
        p = None if fs is None or fs.quiet else fs.inside(path)
        if p is None:
            return _o.os_open(path, flags, *args, **kwargs)
        if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
            exists = os.path.lexists(p)
            how = "new" if not exists else ("trunc" if flags & os.O_TRUNC else "open")
            if (exists and flags & os.O_EXCL) or (not exists and not flags & os.O_CREAT):
                return _o.os_open(path, flags, *args, **kwargs)
            fd = fs.mutate("create", p, lambda: _o.os_open(path, flags, *args, **kwargs),
                           event=("create", p, how))
        else:
            if os.path.isfile(p):
                fs.reading("open", p)
            fd = _o.os_open(path, flags, *args, **kwargs)
        fs.fds[fd] = p
        return fd

    def os_write(fd, data):
        fs = FS
        p = None if fs is None or fs.quiet else fs.fds.get(fd)
        if p is None:
            return _o.os_write(fd, data)
        data = bytes(data)

        def put(b):
            off = os.lseek(fd, 0, 1)
            n = _o.os_write(fd, b)
            fs.record(("write", p, off, b[:n]))
            return n

        def partial(part, at_least=0):
            n = max(at_least, int(len(data) * part))
            return put(data[:n]) if n else 0
        return fs.mutate("write", p, lambda: put(data), partial=partial)

    def os_close(fd):
        fs = FS
        if fs is not None:
            fs.fds.pop(fd, None)
        return _o.os_close(fd)

    def fsync(fd):
        fs = FS
        n = fd if isinstance(fd, int) else fd.fileno()
        p = None if fs is None or fs.quiet else fs.fds.get(n)
        if p is None:
            return _o.fsync(fd) if fs is None else None
        event = ("dirsync", p) if os.path.isdir(p) else ("fsync", p)
        return fs.mutate("fsync", p, lambda: None, event=event)

    def truncate(path, length):
        fs = FS
        if fs is None or fs.quiet:
            return _o.truncate(path, length)
        p = fs.fds.get(path) if isinstance(path, int) else fs.inside(path)
        if p is None:
            return _o.truncate(path, length)
        return fs.mutate("truncate", p, lambda: _o.truncate(path, length),
                         event=("truncate", p, length))
    os.open, os.write, os.close = os_open, os_write, os_close
    os.fsync = os.fdatasync = fsync
    os.truncate = os.ftruncate = truncate

    class Names:
        """Deterministic names for temporary files inside runs."""
        rng = None

        def __iter__(self):
            return self

        def __next__(self):
            if FS is not None:
                FS.names += 1
                return f"sim{FS.names:05d}"
            return next(real)
    real = tempfile._RandomNameSequence()
    tempfile._name_sequence = Names()


def activate(fs):
    global FS
    FS = fs
    if fs is not None:
        tempfile.tempdir = os.path.join(fs.root)


class quiet:
    """Harness access to files: no steps, no faults."""

    def __enter__(self):
        if FS is not None:
            FS.quiet += 1

    def __exit__(self, *exc):
        if FS is not None:
            FS.quiet -= 1
        return False


def rand_fault(rng, kinds):
    """A fault of one of `kinds` at a random place of one operation."""
    k = rng.choice(kinds)
    if k.startswith("read-"):
        return {"kind": k, "at": rng.choice([0, 0, 1, 1, 2, 3, 5])}
    f = {"kind": k}
    if k == "power" and rng.random() < 0.2:
        return {"kind": k, "on": "return", "meta": rng.choice([0.0, 0.5, 1.0, 1.0, 1.0]), "data": rng.choice(["none", "prefix", "zeros"])}
    if k in APPLIES and rng.random() < 0.5 or rng.random() < 0.35:
        on = rng.choice(APPLIES.get(k, ("create", "write", "fsync", "close", "replace", "replace")))
        f["on"] = on
        f["nth"] = rng.choice([0, 0, 0, 1, 2, 4]) if on in ("write", "create") else rng.choice([0, 0, 1])
    else:
        f["at"] = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 10, 13, 17, 25])
    if k in ("crash", "power", "kbi", "memory"):
        f["when"] = rng.choice(["before", "mid", "after"])
        f["part"] = rng.choice([0.0, 0.2, 0.5, 0.9])
    elif k in ("enospc", "eio"):
        f["part"] = rng.choice([0, 0.3, 0.8])
        if k == "enospc":
            f["persist"] = rng.random() < 0.7
    elif k == "short":
        f["part"] = rng.choice([0.01, 0.3, 0.9])
    if k == "power":
        f["meta"] = rng.choice([0.0, 0.5, 1.0, 1.0])
        f["data"] = rng.choice(["none", "all", "prefix", "zeros"])
    return f
