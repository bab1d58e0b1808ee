"""Deterministic simulation of threaded Python code: scheduler, clock, locks, processes, pipes, files.

Tasks are real Python threads of which exactly one runs at a time.  The
scheduler decides at every simulated primitive and at every statement, load
and call of the code under test which task goes on, from a seeded stream or from a replay
file; simulated processes are entities of the same scheduler."""
import builtins, hashlib, io, os, re, sys, threading as T, types, ast, errno

class SimAbort(BaseException): pass

class Failure(Exception):
    def __init__(self, cls, msg): Exception.__init__(self, msg); self.cls, self.msg = cls, msg
class Skip(Exception): pass

def h64(s): return int.from_bytes(hashlib.blake2b(s.encode() if isinstance(s, str) else s, digest_size=8).digest(), "little")

class Rng:
    def __init__(self, seed): self.s = seed & (2**64 - 1)
    def next(self):
        self.s = (self.s + 0x9E3779B97F4A7C15) & (2**64 - 1); z = self.s
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & (2**64 - 1); z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & (2**64 - 1)
        return z ^ (z >> 31)
    def below(self, n): return self.next() % n
    def real(self): return self.next() / 2.0**64
    def coin(self, p): return self.real() < p
    def pick(self, l): return l[self.below(len(l))]

class Choices:
    """Parameters by name and scheduling decisions by step; what differs from the default is what a replay file holds."""
    def __init__(self, seed, replay=None):
        self.seed, self.replay = seed, replay
        self.params, self.sched, self.sims = {}, {}, 0
        self.rs = Rng(h64("sched%d" % seed))
    def param(self, name, lo, hi):
        if self.replay is not None: v = self.replay[0].get(name, lo)
        else: v = lo + Rng(h64("%d/%s" % (self.seed, name))).below(hi - lo + 1)
        v = max(lo, min(hi, v)); self.params[name] = v
        return v
    def pick(self, name, l): return l[self.param(name, 0, len(l) - 1)]
    def coin(self, name, p): return self.param(name, 0, 999) >= 1000 - int(p * 1000)   # 0 is the simplest value
    def content(self, name): return Rng(h64("content %d" % self.param(name, 0, 2**31)))
    def switch(self, step, n, rate):
        """0: go on with the default; k: the k-th other possibility of n."""
        if self.replay is not None: v = self.replay[1].get(step, 0)
        else: v = 1 + self.rs.below(n) if self.rs.coin(rate) else 0
        if v > n: v = n
        if v: self.sched[step] = v
        return v

class Task:
    def __init__(self, sim, name, fn, helper=False):
        self.sim, self.name, self.fn, self.helper = sim, name, fn, helper
        self.sem = T.Semaphore(0); self.done = False; self.exc = None; self.pred = None; self.label = ""; self.op = None; self.wake = None
        self.thread = T.Thread(target=self.run, daemon=True)
        sim.tasks.append(self)
    def run(self):
        self.sem.acquire()
        try:
            if self.sim.aborted: raise SimAbort()
            self.fn()
        except SimAbort: pass
        except BaseException as e:
            self.exc = e
        finally:
            self.done = True
            self.sim.leave(self)

class Sim:
    def __init__(self, ch, rate, step_limit=400000):
        self.ch, self.rate, self.limit = ch, rate, step_limit
        self.tasks, self.procs, self.current, self.step, self.aborted = [], [], None, 0, False
        ch.sims += 1; self.first = self.step = (ch.sims - 1) * 10 ** 7; self.limit += self.step     # (steps name decisions across all simulations of a run)
        self.failure, self.clock, self.main = None, 0.0, T.Semaphore(0)
        self.trace_hash, self.switches, self.counters, self.notes = hashlib.blake2b(digest_size=8), 0, {}, []
        self.no_preempt = 0
    def count(self, k): self.counters[k] = self.counters.get(k, 0) + 1
    def note(self, s): self.notes.append("%6d %s %s" % (self.step, self.current.name if self.current else "-", s))
    def preempt(self):
        """A place in the code under test where another thread may go on."""
        if not self.no_preempt and self.current is not None: self.point()
    def fail(self, cls, msg):
        if not self.failure: self.failure = Failure(cls, msg)
        self.abort(); raise SimAbort()
    def abort(self):
        self.aborted = True
    def runnable(self):
        r = [t for t in self.tasks if not t.done and (t.pred is None or t.pred())]
        return r + [p for p in self.procs if p.can_step()]
    def point(self):
        """The running task may be preempted here."""
        if self.aborted: raise SimAbort()
        self.step += 1
        if self.step > self.limit: self.fail("no_progress", "still running after %d steps" % (self.limit - self.first))
        me = self.current
        if me is None or T.current_thread() is not me.thread: return
        if self.ch.replay is not None and self.step not in self.ch.replay[1]: return
        if self.ch.replay is None and not self.ch.rs.coin(self.rate): return
        others = [e for e in self.runnable() if e is not me]
        if not others: return
        v = self.ch.replay[1][self.step] if self.ch.replay is not None else 1 + self.ch.rs.below(len(others))
        v = min(v, len(others)); self.ch.sched[self.step] = v
        self.go(others[v - 1], me)
    def go(self, e, me):
        """Let entity e go on; me waits (unless e is a process: then choose again)."""
        while True:
            self.switches += 1; self.trace_hash.update(("%d>%s;" % (self.step, e.name)).encode())
            if isinstance(e, Task): break
            e.step()
            if me is not None and not me.done and (me.pred is None or me.pred()): return
            e = self.choose()
            if e is None: return
        if e is me: return
        self.current = e; e.sem.release()
        if me is not None and not me.done:
            me.sem.acquire()
            if self.aborted: raise SimAbort()
    def choose(self):
        """Nobody runs: pick who goes on."""
        while True:
            r = self.runnable()
            if r: break
            sleepers = [t for t in self.tasks if not t.done and t.wake is not None]
            if not sleepers: return None
            self.clock = min(t.wake for t in sleepers)
        self.step += 1
        if self.step > self.limit:
            self.failure = self.failure or Failure("no_progress", "still running after %d steps" % (self.limit - self.first)); self.abort(); return None
        v = 0 if len(r) == 1 else self.ch.switch(self.step, len(r) - 1, 0.6)
        return r[v]
    def block(self, pred, label):
        me = self.current
        if self.aborted: raise SimAbort()
        if self.no_preempt and pred(): return
        self.point()
        if pred(): return
        me.pred, me.label = pred, label
        if me.op is not None and me.op.blocked_at is None and label != "lock": me.op.blocked_at = self.step
        e = self.choose()
        if e is None: self.stuck(); raise SimAbort()
        if e is me: me.pred = None; return
        self.go(e, me)
        if self.aborted: me.pred = None; raise SimAbort()
        if not pred() :   # a process step ended go() early, or somebody else was faster
            me.pred = None
            return self.block(pred, label)
        me.pred = None
    def stuck(self):
        if not self.failure and not self.aborted:
            w = ["%s waits for %s" % (t.name, t.label) for t in self.tasks if not t.done and not t.helper]
            self.failure = Failure("stuck", "nobody can go on: " + "; ".join(w))
        self.abort()
    def leave(self, me):
        """The thread of task me ends."""
        if self.aborted: self.kick(); return
        if me.exc is not None and not me.helper and getattr(me, "fatal", False):
            self.failure = self.failure or Failure("exception", "%s: %s: %s" % (me.name, type(me.exc).__name__, me.exc)); self.abort(); self.kick(); return
        if all(t.done or t.helper for t in self.tasks): self.main.release(); return
        e = self.choose()
        if e is None: self.stuck(); self.kick(); return
        try: self.go(e, me)
        except SimAbort: self.kick()
        else:
            if isinstance(e, Task): return
            if self.current is me:      # only processes could go on
                if all(t.done or t.helper for t in self.tasks): self.main.release()
                else: self.stuck(); self.kick()
    def kick(self):
        for t in self.tasks:
            if not t.done: t.sem.release()
        self.main.release()
    def spawn(self, name, fn, helper=False):
        t = Task(self, name, fn, helper); t.thread.start(); return t
    def run(self):
        """Runs until all tasks that are no helpers have ended."""
        first = self.choose()
        while first is not None and not isinstance(first, Task): first.step(); first = self.choose()
        if first is None: self.stuck()
        else:
            self.current = first; first.sem.release(); self.main.acquire()
        self.aborted_before = self.aborted
        self.aborted = True
        for t in self.tasks:
            if not t.done: t.sem.release()
        for t in self.tasks: t.thread.join(5)
        if self.failure: raise self.failure

# ------------------------------------------------------------------ stand-ins for the threading module
def make_threading(sim):
    m = types.ModuleType("threading")
    class Lock:
        def __init__(self): self.held = False; sim_point()
        def acquire(self, blocking=True, timeout=-1):
            if not blocking:
                sim_point()
                if self.held: return False
                self.held = True; return True
            sim.block(lambda: not self.held, "lock"); self.held = True; return True
        def release(self):
            if not self.held: raise RuntimeError("release unlocked lock")
            self.held = False; sim_point()
        def locked(self): return self.held
        def __enter__(self): self.acquire(); return self
        def __exit__(self, *a): self.release()
    class RLock:
        def __init__(self): self.owner, self.n = None, 0; sim_point()
        def acquire(self, blocking=True, timeout=-1):
            if self.owner is sim.current: self.n += 1; return True
            if not blocking:
                sim_point()
                if self.owner is not None: return False
            else: sim.block(lambda: self.owner is None, "lock")
            self.owner, self.n = sim.current, 1; return True
        def release(self):
            if self.owner is not sim.current: raise RuntimeError("cannot release un-acquired lock")
            self.n -= 1
            if not self.n: self.owner = None
            sim_point()
        def __enter__(self): self.acquire(); return self
        def __exit__(self, *a): self.release()
    class Event:
        def __init__(self): self.flag = False
        def set(self): self.flag = True; sim_point()
        def clear(self): self.flag = False; sim_point()
        def is_set(self): return self.flag
        isSet = is_set
        def wait(self, timeout=None):
            if timeout is None: sim.block(lambda: self.flag, "event"); return True
            end = sim.clock + timeout; me = sim.current; me.wake = end
            sim.block(lambda: self.flag or sim.clock >= end, "event"); me.wake = None
            return self.flag
    class Condition:
        def __init__(self, lock=None):
            self.lock = lock if lock is not None else RLock(); self.waiters = []
            self.acquire, self.release = self.lock.acquire, self.lock.release
        def __enter__(self): self.lock.acquire(); return self
        def __exit__(self, *a): self.lock.release()
        def wait(self, timeout=None):
            w = [False]; self.waiters.append(w)
            n = getattr(self.lock, "n", None)
            if n is None: self.lock.release()
            else: self.lock.owner, self.lock.n = None, 0
            if timeout is None: sim.block(lambda: w[0], "condition")
            else:
                end = sim.clock + timeout; me = sim.current; me.wake = end
                sim.block(lambda: w[0] or sim.clock >= end, "condition"); me.wake = None
                if w in self.waiters: self.waiters.remove(w)
            self.lock.acquire()
            if n is not None: self.lock.n = n
            return w[0]
        def wait_for(self, p, timeout=None):
            while not p(): self.wait(timeout)
            return True
        def notify(self, n=1):
            for w in self.waiters[:n]: w[0] = True
            del self.waiters[:n]; sim_point()
        def notify_all(self): self.notify(len(self.waiters))
        notifyAll = notify_all
    class Semaphore:
        def __init__(self, value=1): self.n = value
        def acquire(self, blocking=True, timeout=None):
            if not blocking:
                sim_point()
                if self.n <= 0: return False
            else: sim.block(lambda: self.n > 0, "semaphore")
            self.n -= 1; return True
        def release(self, n=1): self.n += n; sim_point()
        def __enter__(self): self.acquire(); return self
        def __exit__(self, *a): self.release()
    count = [0]
    class Thread:
        def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
            self.target, self.args, self.kwargs, self.daemon, self.task = target, args, kwargs or {}, daemon, None
            count[0] += 1; self.name = name or "Thread-%d" % count[0]
        def run(self):
            if self.target: self.target(*self.args, **self.kwargs)
        def start(self): self.task = sim.spawn(self.name, self.run, helper=True); sim_point()
        def join(self, timeout=None): sim.block(lambda: self.task.done, "join")
        def is_alive(self): return self.task is not None and not self.task.done
        isAlive = is_alive
        def setDaemon(self, d): self.daemon = d
        def getName(self): return self.name
        def setName(self, n): self.name = n
    class Current:
        @property
        def name(self): return sim.current.name
        def getName(self): return sim.current.name
        ident = property(lambda self: id(sim.current))
    def sim_point():
        if sim.current is not None and not sim.no_preempt: sim.point()
    for k, v in dict(Lock=Lock, RLock=RLock, Event=Event, Condition=Condition, Semaphore=Semaphore, BoundedSemaphore=Semaphore, Thread=Thread, _Event=Event,
                     local=T.local, current_thread=Current, currentThread=Current, get_ident=lambda: id(sim.current), TIMEOUT_MAX=1e9).items(): setattr(m, k, v)
    m.enumerate = lambda: [Current()]; m.active_count = m.activeCount = lambda: len([t for t in sim.tasks if not t.done])
    q = types.ModuleType("queue")
    class Empty(Exception): pass
    class Full(Exception): pass
    class Queue:
        def __init__(self, maxsize=0): self.maxsize, self.d, self.unfinished = maxsize, [], 0
        def put(self, x, block=True, timeout=None):
            if self.maxsize > 0:
                if not block and len(self.d) >= self.maxsize: raise Full()
                sim.block(lambda: len(self.d) < self.maxsize, "queue")
            else: sim_point()
            self.d.append(x); self.unfinished += 1; sim_point()
        def take(self): return self.d.pop(0)
        def get(self, block=True, timeout=None):
            if not block:
                sim_point()
                if not self.d: raise Empty()
            else: sim.block(lambda: len(self.d) > 0, "queue")
            x = self.take(); sim_point(); return x
        def put_nowait(self, x): self.put(x, False)
        def get_nowait(self): return self.get(False)
        def qsize(self): return len(self.d)
        def empty(self): return not self.d
        def full(self): return 0 < self.maxsize <= len(self.d)
        def task_done(self): self.unfinished -= 1
        def join(self): sim.block(lambda: self.unfinished == 0, "queue")
    class LifoQueue(Queue):
        def take(self): return self.d.pop()
    class PriorityQueue(Queue):
        def take(self): x = min(self.d); self.d.remove(x); return x
    q.Queue, q.LifoQueue, q.PriorityQueue, q.SimpleQueue, q.Empty, q.Full = Queue, LifoQueue, PriorityQueue, Queue, Empty, Full
    return m, q

# ------------------------------------------------------------------ processes
class Broken(OSError):
    def __init__(self): OSError.__init__(self, errno.EPIPE, "Broken pipe")

class PipeIn:
    def __init__(self, sim, p): self.sim, self.p, self.buf, self.closed = sim, p, "", False
    def write(self, s):
        if self.closed: raise ValueError("I/O operation on closed file")
        self.sim.point()
        if isinstance(s, bytes): s = s.decode()
        if self.p.dead: raise Broken()
        self.p.wrote(s); self.buf += s
        self.sim.point()
    def writelines(self, l):
        for s in l: self.write(s)
    def flush(self): self.sim.point()
    def close(self):
        if not self.closed: self.closed = True; self.p.stdin_closed(); self.sim.point()

class PipeOut:
    CAP = 65536
    def __init__(self, sim, p): self.sim, self.p, self.lines, self.closed = sim, p, [], False
    def size(self): return sum(len(l) for l in self.lines)
    def readline(self, n=-1):
        self.sim.block(lambda: self.lines or self.p.dead, "output of " + self.p.name)
        if not self.lines: return ""
        l = self.lines.pop(0); self.p.read(l); return l
    def __iter__(self): return self
    def __next__(self):
        l = self.readline()
        if l == "": raise StopIteration
        return l
    next = __next__
    def read(self, n=-1): return "".join(self)
    def readlines(self): return list(self)
    def close(self): self.closed = True

class Process:
    """A line-oriented program: handle(line) returns lines of output, or None when it cannot go on yet."""
    def __init__(self, sim, name, noisy=0):
        self.sim, self.name, self.noisy = sim, name, noisy
        self.stdin, self.stdout, self.stderr = PipeIn(sim, self), PipeOut(sim, self), PipeOut(sim, self)
        self.dead, self.returncode, self.pid, self.handled, self.die_at, self.merged = False, None, 4000 + len(sim.procs), 0, None, False
        sim.procs.append(self)
    def wrote(self, s): pass
    def read(self, s): pass
    def stdin_closed(self): pass
    def ready(self, line): return True
    def can_step(self):
        if self.dead: return False
        if self.noisy and self.stderr is not None and self.stderr.size() > PipeOut.CAP: return False
        i = self.stdin.buf.find("\n")
        if i >= 0: return self.ready(self.stdin.buf[:i])
        return self.stdin.closed
    def step(self):
        i = self.stdin.buf.find("\n")
        if i < 0: self.finish(); self.exit(0); return
        line, self.stdin.buf = self.stdin.buf[:i], self.stdin.buf[i + 1:]
        self.handled += 1
        if self.die_at is not None and self.handled >= self.die_at: self.sim.count("f:process_dies"); self.exit(-9); return
        if self.noisy and self.stderr is not None: self.stderr.lines += ["x" * 999 + "\n"] * self.noisy
        try: out = self.handle(line)
        except Failure as f:
            self.sim.failure = self.sim.failure or f; self.sim.abort(); return
        if out is None: self.exit(-11); return
        self.stdout.lines += [o + "\n" for o in out]
    def finish(self): pass
    def exit(self, code):
        self.dead, self.returncode = True, code
    def poll(self): self.sim.point(); return self.returncode
    def wait(self, timeout=None): self.sim.block(lambda: self.dead, "end of " + self.name); return self.returncode
    def kill(self): self.exit(-9); self.sim.point()
    def terminate(self): self.exit(-15); self.sim.point()
    send_signal = lambda self, s: self.exit(-s)
    def communicate(self, data=None):
        if data: self.stdin.write(data)
        self.stdin.close(); out = self.stdout.read(); self.wait(); return out, ""
    def __enter__(self): return self
    def __exit__(self, *a): self.stdin.close(); self.wait()

# ------------------------------------------------------------------ Python 2 source in Python 3
class Py2(ast.NodeTransformer):
    names = {"iteritems": "items", "itervalues": "values", "iterkeys": "keys", "getcwdu": "getcwd"}
    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr in self.names: n.attr = self.names[n.attr]
        return n
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "has_key" and len(n.args) == 1:
            return ast.copy_location(ast.Compare(left=n.args[0], ops=[ast.In()], comparators=[n.func.value]), n)
        return n

class Points(ast.NodeTransformer):
    """Lets another thread go on before every statement and after every load of an attribute or element, call and comparison."""
    def here(self, n): return ast.copy_location(ast.Expr(ast.Call(ast.Name("__point__", ast.Load()), [], [])), n)
    def after(self, n): return ast.copy_location(ast.Call(ast.Name("__after__", ast.Load()), [n], []), n)
    def body(self, l, doc=False):
        out = []
        for i, n in enumerate(l):
            n = self.visit(n)
            first = doc and i == 0 and isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str)
            if not first and not (isinstance(n, ast.ImportFrom) and n.module == "__future__"): out.append(self.here(n))
            out.append(n)
        return out
    def generic_visit(self, n):
        for f, v in ast.iter_fields(n):
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                setattr(n, f, self.body(v, f == "body" and isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef))))
            elif isinstance(v, list):
                setattr(n, f, [self.visit(x) if isinstance(x, ast.AST) else x for x in v])
            elif isinstance(v, ast.AST): setattr(n, f, self.visit(v))
        return n
    def visit_Attribute(self, n): self.generic_visit(n); return self.after(n) if isinstance(n.ctx, ast.Load) else n
    visit_Subscript = visit_Attribute
    def visit_Call(self, n): self.generic_visit(n); return self.after(n)
    visit_Compare = visit_Call
    def visit_AugAssign(self, n): self.generic_visit(n); n.value = self.after(n.value); return n
    def visit_AnnAssign(self, n): return n

CODE = {}
def load_source(path, points=False):
    if (path, points) in CODE: return CODE[path, points]
    s = open(path).read()
    try: t = ast.parse(s, path)
    except SyntaxError:
        s = re.sub(r"(?m)^(\s*)except\s+([\w., ()]+?)\s*,\s*(\w+)\s*:", r"\1except \2 as \3:", s)
        s = re.sub(r"(?m)^(\s*)print\s+>>\s*([\w.]+)\s*,\s*(.*)$", r"\1print(\3, file=\2)", s)
        s = re.sub(r"(?m)^(\s*)print(?:[ \t]+([^(\n].*))?$", lambda m: m.group(1) + "print(%s)" % (m.group(2) or ""), s)
        s = re.sub(r"(?m)^(\s*)raise\s+(\w+)\s*,\s*(.+)$", r"\1raise \2(\3)", s)
        s = re.sub(r"\b(0)([0-7]{3})\b", r"0o\2", s)
        t = ast.parse(s, path)
    t = Py2().visit(t)
    if points: t = Points().visit(t)
    ast.fix_missing_locations(t)
    CODE[path, points] = compile(t, path, "exec")
    return CODE[path, points]

class Importer:
    """Imports for the code under test: stand-ins by name, files of its own directories from source, the rest from Python."""
    def __init__(self, dirs, shims, builtins_extra, sim=None):
        self.dirs, self.shims, self.mods = dirs, shims, {}
        self.b = dict(vars(builtins)); self.b.update(unicode=str, basestring=str, xrange=range, long=int, raw_input=input, unichr=chr, reduce=__import__("functools").reduce)
        self.b.update(builtins_extra); self.b["__import__"] = self.imp
        if sim is not None:
            def after(v): sim.preempt(); return v
            self.b.update(__point__=sim.preempt, __after__=after)
        self.sim = sim
    def find(self, name):
        for d in self.dirs:
            for f in (os.path.join(d, name + ".py"), os.path.join(d, name, "__init__.py")):
                if os.path.exists(f): return f
        return None
    def load(self, name, path=None):
        if name in self.mods: return self.mods[name]
        path = path or self.find(name)
        m = types.ModuleType(name); m.__file__ = path; m.__dict__["__builtins__"] = self.b
        self.mods[name] = m
        if os.path.basename(path) == "__init__.py":
            m.__path__ = [os.path.dirname(path)]
            if os.path.dirname(path) not in self.dirs: self.dirs.append(os.path.dirname(path))
        try: exec(load_source(path, self.sim is not None), m.__dict__)
        except BaseException: self.mods.pop(name, None); raise
        return m
    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        parts = name.split(".") if name else []
        if parts and parts[0] in self.shims:
            m = self.shims[parts[0]]
            if fromlist:
                for p in parts[1:]: m = getattr(m, p)
            return m
        if level > 0 and not parts:
            m = types.ModuleType("package")
            for f in fromlist: setattr(m, f, self.load(f))
            return m
        if parts and self.find(parts[0]):
            m = self.load(parts[0])
            if len(parts) > 1:
                sub = self.load(parts[1]); setattr(m, parts[1], sub)
                return sub if fromlist else m
            for f in fromlist or ():
                if f != "*" and not hasattr(m, f) and self.find(f): setattr(m, f, self.load(f))
            return m
        return __import__(name, globals, locals, fromlist or (), 0)

class Proxy(types.ModuleType):
    """A module with some functions replaced."""
    def __init__(self, real, **over):
        types.ModuleType.__init__(self, real.__name__); self.__dict__["_real"] = real; self.__dict__.update(over)
    def __getattr__(self, k): return getattr(self.__dict__["_real"], k)
