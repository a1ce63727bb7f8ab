"""
Cooperative scheduler for several simulated processes.

Each job runs in a thread of its own, but only the one holding the baton runs; the baton
is passed at intercepted operations, as the explicit list of switches says, so that the
interleaving is a function of the case alone.  Each job keeps its own working directory.
"""
import threading
from . import seam
from .seam import SimCrash, SimHang


class Sched(object):
    def __init__(self, switches):
        self.switches = dict((int(a), int(b)) for a, b in switches)
        self.step = 0
        self.jobs = []
        self.cur = None
        self.made = 0
        self.abort = False
        self.log = []

    def add(self, ctx, fn, cwd):
        ctx.sched = self
        ctx.cwd = cwd
        j = Job(len(self.jobs), ctx, fn)
        self.jobs.append(j)
        return j

    # called by the running job before each of its operations
    def point(self, ctx):
        if getattr(seam.S.tl, "ctx", None) is not ctx or self.abort:
            if self.abort:
                ctx.dead = True
            return
        k = self.switches.get(self.step)
        self.step += 1
        if k is None:
            return
        nxt = self.jobs[k % len(self.jobs)]
        me = self.cur
        if nxt is me or nxt.done:
            return
        self.made += 1
        self.log.append((self.step, nxt.i))
        self._to(nxt)
        me.go.acquire()
        if self.abort:
            ctx.dead = True

    def _to(self, job):
        self.cur = job
        seam.R["chdir"](job.ctx.cwd)
        job.go.release()

    def finished(self, job):
        job.done = True
        job.ctx.dead = True
        if self.abort:
            return
        live = [j for j in self.jobs if not j.done]
        if live:
            n = live[(self.step + job.i) % len(live)]
            self.log.append((self.step, n.i))
            self._to(n)
        else:
            self.end.release()

    def run(self):
        self.end = threading.Semaphore(0)
        cwd = seam.R["getcwd"]()
        seam.S.threaded = True
        for j in self.jobs:
            j.thread = threading.Thread(target=j.main, args=(self,), daemon=True)
            j.thread.start()
        try:
            self._to(self.jobs[0])
            self.end.acquire()
        finally:
            self.abort = True
            for j in self.jobs:
                j.ctx.dead = True
                j.go.release()
                j.go.release()
            for j in self.jobs:
                j.thread.join(20)
            seam.S.threaded = False
            seam.R["chdir"](cwd)


class Job(object):
    def __init__(self, i, ctx, fn):
        self.i, self.ctx, self.fn = i, ctx, fn
        self.go = threading.Semaphore(0)
        self.done = False
        self.kind = self.value = self.exc = None

    def main(self, sched):
        self.go.acquire()
        if sched.abort:
            return
        try:
            with seam.active(self.ctx):
                self.value = self.fn()
            self.kind = "ok"
        except SimCrash:
            self.kind = "crash"
        except SimHang as ex:
            self.kind, self.exc = "hang", ex
        except Exception as ex:
            ex.__traceback__ = None
            self.kind, self.exc = "raise", ex
        if self.ctx.dead:
            self.kind = "crash"
        sched.finished(self)
