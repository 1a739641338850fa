"""Schedule perturbation: random delays at source-line granularity in the
watched files, injected through sys.monitoring (no change to the code)."""

import random
import sys
import threading
import time


class Perturb(object):
    """with Perturb(files, seed, prob): ... run threads ...

    At every executed line of the watched files a thread yields with
    probability prob (a zero or sub-millisecond sleep)."""

    TOOL = 4

    def __init__(self, files, seed, prob=0.05, maxsleep=0.0005, budget=4000):
        self.files = tuple(files)
        self.seed = seed
        self.prob = prob
        self.maxsleep = maxsleep
        self.tl = threading.local()
        self.n = 0
        self.yields = 0
        self.budget = budget

    def __enter__(self):
        m = sys.monitoring
        self.old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        try:
            m.use_tool_id(self.TOOL, 'verif-sched')
            self.owner = True
        except ValueError:
            self.owner = False
            return self
        m.register_callback(self.TOOL, m.events.LINE, self.line)
        m.set_events(self.TOOL, m.events.LINE)
        m.restart_events()
        return self

    def __exit__(self, *args):
        sys.setswitchinterval(self.old)
        if self.owner:
            m = sys.monitoring
            m.set_events(self.TOOL, 0)
            m.register_callback(self.TOOL, m.events.LINE, None)
            m.free_tool_id(self.TOOL)

    def line(self, code, lineno):
        if not code.co_filename.endswith(self.files):
            return sys.monitoring.DISABLE
        try:
            r = self.tl.rng
        except AttributeError:
            self.n += 1
            r = self.tl.rng = random.Random(
                "%s|%s" % (self.seed, threading.current_thread().name))
        if r.random() < self.prob and self.yields < self.budget:
            self.yields += 1
            if r.random() < 0.5:
                time.sleep(0)
            else:
                time.sleep(r.random() * self.maxsleep)


class Crew(object):
    """Runs named threads to completion collecting their exceptions.

    join() returns True if all finished.  stuck() decides, on state rather
    than on time alone, whether the remaining ones can still progress."""

    def __init__(self):
        self.threads = []
        self.errors = []

    def add(self, name, fn, *args):
        def body():
            try:
                fn(*args)
            except BaseException as e:
                import traceback
                self.errors.append((name, e, traceback.format_exc()))
        t = threading.Thread(target=body, name=name)
        t.daemon = True
        self.threads.append(t)
        return t

    def start(self):
        for t in self.threads:
            t.start()

    def join(self, progress, idle=40.0, total=200.0):
        """Waits until all threads finished; False if progress() (any
        changing value) has not changed for idle seconds"""
        t0 = last = time.time()
        val = progress()
        while True:
            alive = [t for t in self.threads if t.is_alive()]
            if not alive:
                return True
            alive[0].join(0.02)
            now = time.time()
            v = progress()
            if v != val:
                val = v
                last = now
            elif now - last > idle:
                return False
            if now - t0 > total:
                return None

    def alive(self):
        return [t.name for t in self.threads if t.is_alive()]


def stacks():
    import traceback
    names = {t.ident: t.name for t in threading.enumerate()}
    out = {}
    for ident, frame in sys._current_frames().items():
        out[names.get(ident, ident)] = ''.join(
            traceback.format_stack(frame)[-4:])
    return out
