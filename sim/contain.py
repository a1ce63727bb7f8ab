"""
Last line of containment of a worker process: an audit hook that refuses every attempt, by the
code under test or by the harness itself, to create, change or remove anything outside of the
scratch directory.  (The seam refuses the same for code under simulation; this one does not
depend on which function was called, or on a simulation being in progress.)
"""
import os, sys, errno

_norm, _fsdecode, _join, _isabs = os.path.normpath, os.fsdecode, os.path.join, os.path.isabs
_getcwd, _readlink = os.getcwd, os.readlink
_WR = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
# event -> positions of (path, dir_fd); dir_fd None: not given by the event
_EV = {"os.mkdir": ((0, 2),), "os.remove": ((0, 1),), "os.rmdir": ((0, 1),),
       "os.rename": ((0, 2), (1, 3)), "os.link": ((1, 3),), "os.symlink": ((1, 2),),
       "os.chmod": ((0, 2),), "os.chown": ((0, 3),), "os.utime": ((0, 3),),
       "os.truncate": ((0, None),), "os.setxattr": ((0, None),), "os.removexattr": ((0, None),)}


class Contained(PermissionError):
    pass


def _full(path, dir_fd):
    if isinstance(path, int):
        return None                      # already opened, and hence judged
    path = _fsdecode(path)
    if not _isabs(path):
        base = _getcwd()
        if isinstance(dir_fd, int) and dir_fd >= 0:
            base = _readlink("/proc/self/fd/%d" % dir_fd)
        path = _join(base, path)
    return _norm(path)


def install(top, report):
    """refuse changes outside of `top`; report(event, path) is called before refusing"""
    top = os.path.realpath(top)
    pre = top + "/"

    def judge(ev, path, dir_fd):
        p = _full(path, dir_fd)
        if p is None or p == top or p.startswith(pre) or p == "/dev/null":
            return
        report(ev, p)
        raise Contained(errno.EACCES, "refused outside the scratch directory", p)

    def hook(ev, args):
        if ev == "open":
            path, mode, flags = args
            if isinstance(flags, int) and flags & _WR and path is not None:
                judge(ev, path, None)
        elif ev in _EV:
            for a, b in _EV[ev]:
                judge(ev, args[a], args[b] if b is not None else None)
    sys.addaudithook(hook)
