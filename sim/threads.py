"""Several sessions in threads of one process, of which exactly one runs at any time.

A seeded scheduler decides at every raw I/O operation of the simulated disk, and at seeded steps inside the code under
test, whether another session takes over.  Everything a session sees of its environment (disk, entropy, clock, step
counter, caches) belongs to it and is switched along with it, so a session whose result depends on the schedule shares
state with another one through the code under test."""
import os
import pickle
import random
import sys
import threading
import traceback

from . import core
from . import disk as simdisk

STEP_FIELDS = ("n", "limit", "gc_next", "gc_plan", "gc_done", "interrupt")


class Env(object):
    """what is switched with a session"""

    def __init__(self, tag):
        self.current = None
        self.steps = {"n": 0, "limit": None, "gc_next": None, "gc_plan": None, "gc_done": 0, "interrupt": None}
        self.random = random.Random(tag).getstate()
        self.stdout = sys.stdout
        self.tag = tag
        self.gate = threading.Semaphore(0)
        self.done = False
        self.out = None

    def save(self):
        self.current = core.CURRENT
        for f in STEP_FIELDS:
            self.steps[f] = getattr(core.STEPS, f)
        self.random = random.getstate()
        self.stdout = sys.stdout

    def load(self):
        core.CURRENT = self.current
        for f in STEP_FIELDS:
            setattr(core.STEPS, f, self.steps[f])
        random.setstate(self.random)
        sys.stdout = self.stdout
        simdisk.TAG = self.tag


class Sched(object):
    def __init__(self, rng, io_p, jump_mean, limit, burst):
        self.rng = rng
        self.io_p = io_p
        self.jump_mean = jump_mean
        self.limit = limit
        self.burst = burst          # probability that a preemption is soon followed by another
        self.hot = 0
        self.envs = []
        self.me = None
        self.switches = 0
        self.points = 0
        self.trace = []
        self.sites = set()
        self.over = threading.Semaphore(0)

    def others(self):
        return [e for e in self.envs if not e.done and e is not self.me]

    def arm(self):
        core.STEPS.switch_next = None
        if self.jump_mean and self.switches < self.limit:
            core.STEPS.switch_next = core.STEPS.n + 1 + int(self.rng.expovariate(1.0 / self.jump_mean))

    def at_io(self, what):
        if self.me is None or threading.current_thread() is not self.me.thread:
            return
        self.points += 1
        if self.switches >= self.limit:
            return
        p = .5 if self.hot else self.io_p
        if self.rng.random() < p:
            self.hot = self.hot - 1 if self.hot else (2 if self.rng.random() < self.burst else 0)
            f = sys._getframe(2)
            root = os.path.realpath(core.REPO_SRC)
            while f is not None and not f.f_code.co_filename.startswith(root):
                f = f.f_back
            self.preempt(f.f_code if f is not None else None)

    def at_step(self, code):
        core.STEPS.switch_next = None
        if self.me is None or threading.current_thread() is not self.me.thread:
            return
        self.points += 1
        self.preempt(code)

    def preempt(self, code):
        c = self.others()
        if not c or self.switches >= self.limit:
            return
        nxt = c[self.rng.randrange(len(c))]
        me = self.me
        self.switches += 1
        site = "%s:%s" % (os.path.basename(code.co_filename), code.co_qualname) if code is not None else "-"
        self.sites.add("%s>%s %s" % (me.kind, nxt.kind, site))
        self.trace.append((self.points, self.envs.index(nxt), site))
        me.save()
        self.me = nxt
        nxt.load()
        self.arm()
        nxt.gate.release()
        me.gate.acquire()

    def body(self, env, fn):
        env.gate.acquire()
        try:
            env.out = fn()
        except BaseException:
            env.out = {"harness": traceback.format_exc()}
        env.done = True
        # nobody holds the baton now: pass it on or finish
        c = self.others()
        if not c:
            self.me = None
            self.over.release()
            return
        nxt = c[self.rng.randrange(len(c))]
        self.me = nxt
        nxt.load()
        self.arm()
        nxt.gate.release()

    def run(self, jobs):
        """jobs: [(kind, tag, fn)] -> results"""
        old = Env("")
        old.save()
        old.tag = simdisk.TAG
        size = threading.stack_size(64 << 20)
        try:
            for kind, tag, fn in jobs:
                e = Env(tag)
                e.kind = kind
                e.thread = threading.Thread(target=self.body, args=(e, fn), daemon=True)
                self.envs.append(e)
            for e in self.envs:
                e.thread.start()
            simdisk.SWITCH = self.at_io
            core.STEPS.switch = self.at_step
            self.me = self.envs[self.rng.randrange(len(self.envs))]
            self.me.load()
            self.arm()
            self.me.gate.release()
            self.over.acquire()
            for e in self.envs:
                e.thread.join()
        finally:
            simdisk.SWITCH = None
            core.STEPS.switch = None
            core.STEPS.switch_next = None
            threading.stack_size(size)
            old.load()
        return [e.out for e in self.envs]


def alone(tag, fn):
    """the same job alone in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            Env(tag).load()
            try:
                out = fn()
            except BaseException:
                out = {"harness": traceback.format_exc()}
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(out))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        return {"harness": "the process of a session run alone died"}
    return pickle.loads(data)
