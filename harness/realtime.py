#!/usr/bin/env python3
"""R01, R02: the realtime service (realtime/rt) under a simulated scheduler, with simulated backend programs."""
import os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"; os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(VERIF, "sim"))
import collections, errno, gc, json, pickle, re, shutil, signal, struct, tempfile, time, types
import subprocess as real_subprocess, logging
import pysim
from pysim import *
REPO = os.environ.get("SIM_REPO", "/repo")
RT = os.path.join(REPO, "realtime")
logging.disable(logging.CRITICAL)

def dig(*a): return "%08x" % (h64(repr(a)) & 0xffffffff)

# ------------------------------------------------------------------ what the backend programs compute
WEIGHTS0 = {"f0": 0.5, "f1": -0.25, "LanguageModel": 1.0}
def tok(s): return re.sub(r"([.,!])", r" \1", s.lower()).strip()
def untok(s): return re.sub(r" ([.,!])", r"\1", s).strip().capitalize()
def links(src, trg, rev):
    f, e = src.split(), trg.split()
    l = ["%d-%d" % (i, j) for i in range(len(f)) for j in range(len(e)) if (i == j or (rev and i + 1 == j)) and "q" not in f[i]]
    return " ".join(l)
def align(src, trg): return " ".join(sorted(set(links(src, trg, 0).split()) | set(links(src, trg, 1).split())))
def grammar_text(sentence, data): return "G " + dig(sentence, tuple(data))
def translation(w, lm, grammar, sentence): return "T." + dig(sorted(w.items()), tuple(lm), grammar, sentence) + " " + " ".join(reversed(sentence.split()))
def updated(w, lm, grammar, sentence, ref):
    w = dict(w); x = h64(repr((sorted(w.items()), tuple(lm), grammar, sentence, ref)))
    for k in ("f%d" % (x % 4), "f%d" % (x // 4 % 4)): w[k] = w.get(k, 0.0) + ((x >> 8) % 64 - 32) / 64.0 + 0.1
    return w
def weights_line(w): return " ".join("%s=%s" % (k, repr(v)) for k, v in sorted(w.items()) if v != 0.0)
def parse_weights(l):
    w = {}
    for x in l.split():
        k, v = x.split("="); w[k] = float(v)
    return w

# ------------------------------------------------------------------ the model: one context, one request at a time
class Ctx:
    def __init__(self): self.w, self.lm, self.pending, self.data, self.cache, self.order = dict(WEIGHTS0), [], "", [], {}, []
    def copy(self):
        c = Ctx.__new__(Ctx); c.w, c.lm, c.pending, c.data, c.cache, c.order = dict(self.w), list(self.lm), self.pending, list(self.data), dict(self.cache), list(self.order)
        return c
    def key(self): return dig(sorted(self.w.items()), self.lm, self.pending, self.data, sorted(self.cache.items()), self.order)

class Model:
    def __init__(self, cache_size, hpyplm, norm): self.n, self.hpyplm, self.norm = max(cache_size, 1), hpyplm, norm
    def grammar(self, c, s):
        g = c.cache.get(s)
        if g is not None: return g
        g = grammar_text(s, c.data)
        if len(c.order) == self.n: c.cache.pop(c.order.pop(0), None)
        c.order.append(s); c.cache[s] = g
        return g
    def step_lm(self, c):
        if self.hpyplm:
            if c.pending: c.lm.append(c.pending)
            c.pending = ""
    def apply(self, c, kind, args):
        """(state of the context or None for no context, reply); reply is a string, None, or ANY."""
        if kind == "DROP": return None, None
        c = c.copy() if c else Ctx()
        if kind == "TR":
            s = args[0]
            if not s.strip(): return c, ""
            if self.norm: s = tok(s)
            g = self.grammar(c, s); self.step_lm(c); h = translation(c.w, c.lm, g, s)
            return c, untok(h) if self.norm else h
        if kind == "LEARN":
            s, t = args
            if not s.strip() or not t.strip(): return c, None
            if self.norm: s, t = tok(s), tok(t)
            a = align(s, t); g = self.grammar(c, s); self.step_lm(c); c.w = updated(c.w, c.lm, g, s, t)
            if self.hpyplm: c.pending = t
            c.data.append((s, t, a)); c.cache.pop(s, None)
            return c, None
        if kind == "SAVE": return c, "".join(self.state(c))
        if kind == "LOAD":
            text = args[0]
            if c.data: return c, None
            if text is None: return c, None
            r = self.parse(text)
            if r is None: return Ctx(), None
            w, data = r; c.w.update(w)
            for s, t, a in data:
                c.data.append((s, t, a))
                if self.hpyplm: self.step_lm(c); c.pending = t
            return c, None
    def state(self, c): return [weights_line(c.w) + "\n"] + ["%s ||| %s ||| %s\n" % d for d in c.data] + ["EOF\n"]
    def parse(self, text):
        lines = text.split("\n")
        try:
            w = parse_weights(lines[0]); data = []
            for l in lines[1:]:
                if l.strip() == "EOF": return w, data
                s, t, a = [x.strip() for x in (l + " ").split(" ||| ")]; data.append((s, t, a))
        except ValueError: return None
        return None

# ------------------------------------------------------------------ backend programs
class Backend(Process):
    def __init__(self, world, name, noisy): Process.__init__(self, world.sim, name, noisy); self.world = world
    def touch(self, ctx):
        op = self.sim.current.op if self.sim.current else None
        if op is not None: self.world.touched(op, ctx)
class Filter(Backend):
    def __init__(self, world, name, fn): Backend.__init__(self, world, name, 0); self.fn = fn
    def handle(self, l): return [self.fn(l)]
class FastAlign(Backend):
    def __init__(self, world, rev): Backend.__init__(self, world, "fast_align" + (".rev" if rev else ".fwd"), 1); self.rev = rev
    def handle(self, l):
        s, t = l.split(" ||| "); return ["%s ||| %s ||| %s ||| -1.5" % (s, t, links(s, t, self.rev))]
class Atools(Backend):
    def __init__(self, world): Backend.__init__(self, world, "atools", 0); self.first = None
    def handle(self, l):
        if self.first is None: self.first = l; return []
        a, self.first = self.first, None
        return [" ".join(sorted(set(a.split()) | set(l.split())))]
class Extractor(Backend):
    def __init__(self, world): Backend.__init__(self, world, "extractor", 2); self.data = collections.defaultdict(list)
    def wrote(self, s): self.touch(s.split(" ||| ")[0].strip())
    def handle(self, l):
        f = re.split(r"\s*\|\|\|\s*", l.strip())
        if len(f) == 2 and f[1].lower() == "drop": self.data.pop(f[0], None); return ["drop " + f[0]]
        if len(f) == 3:
            try:
                with open(f[2], "w") as o: o.write(grammar_text(f[1], self.data[f[0]]))
            except OSError: return None
            return [f[2]]
        if len(f) == 4: self.data[f[0]].append((f[1], f[2], f[3])); return ["learn " + f[0]]
        return ["Error: see README.md for stream mode usage"]
class Mira(Backend):
    def __init__(self, world, cmd):
        i = cmd.index("-c"); ini = cmd[i + 1]; self.ctx = os.path.basename(os.path.dirname(ini))[len("decoder."):]
        Backend.__init__(self, world, "decoder." + self.ctx, 3)
        self.w, self.lm = dict(WEIGHTS0), []
        m = re.search(r"-r (\S+)", open(ini).read()); self.fifo = world.fifos.get(m.group(1)) if m else None
    def wrote(self, s): self.touch(self.ctx)
    def ready(self, l): return self.fifo is None or l.startswith("WEIGHTS") or "\n" in self.fifo.buf
    def lm_step(self):
        if self.fifo is None: return
        l, _, self.fifo.buf = self.fifo.buf.partition("\n")
        if l: self.lm.append(l)
    def source(self, x):
        m = re.match(r'<seg grammar="([^"]*)">(.*)</seg>$', x)
        if not m: return "", x
        with open(m.group(1)) as f: g = f.read()
        return g, m.group(2)
    def handle(self, l):
        p = l.split(" ||| ")
        try:
            if p[0] == "WEIGHTS":
                if p[1] == "WRITE": return [weights_line(self.w)]
                self.w.update(parse_weights(p[1])); return []
            if p[0] == "LEARN":
                g, s = self.source(p[1]); self.lm_step(); self.w = updated(self.w, self.lm, g, s, p[2]); return ["HBF " + dig(self.w)]
            g, s = self.source(l); self.lm_step(); return [translation(self.w, self.lm, g, s)]
        except OSError as e:
            self.sim.failure = self.sim.failure or Failure("grammar_gone", "the decoder of %s cannot read the grammar it is told to use: %s" % (self.ctx, e)); self.sim.abort(); return None
class Fifo:
    def __init__(self, sim): self.sim, self.buf, self.closed = sim, "", False
    def write(self, s): self.sim.point(); self.buf += s
    def flush(self): self.sim.point()
    def close(self): self.closed = True

class Op:
    def __init__(self, kind, ctx, args): self.kind, self.ctx, self.args, self.inv, self.ret, self.blocked_at, self.reply, self.exc = kind, ctx, args, None, None, None, None, None
    def __str__(self): return "%s %s%s" % (self.kind, self.ctx, "".join(" ||| " + str(a) for a in self.args))

class World:
    """One machine: files below a scratch directory, backend programs, the service code loaded afresh."""
    def __init__(self, ch, rate, hpyplm, norm, cache):
        self.ch, self.hpyplm, self.norm, self.cache = ch, hpyplm, norm, cache
        self.dir = tempfile.mkdtemp(prefix="rtsim.", dir=os.environ.get("TMPDIR", "/tmp"))
        self.sim = Sim(ch, rate)
        self.fifos, self.temps, self.intervals, self.fault, self.tainted = {}, 0, {}, None, set()
        self.ops = []
        c = os.path.join(self.dir, "config"); os.mkdir(c)
        def put(n, t): open(os.path.join(c, n), "w").write(t)
        put("rt.ini", "hpyplm=%s\nmetric=ibm_bleu\n" % ("true" if hpyplm else "false")); put("sa.ini", "f_sa_file = 'sa/f.sa.bin'\n")
        put("cdec.ini", "formalism=scfg\nfeature_function=WordPenalty\nfeature_function=KLanguageModel x/mono.klm\n" + ("feature_function=External libcdec_ff_hpyplm.so corpus.hpyplm\n" if hpyplm else ""))
        put("weights.final", "\n".join("%s %r" % x for x in WEIGHTS0.items()) + "\n")
        for n in ("a.fwd_err", "a.rev_err"): put(n, "expected target length = source length * 1.1\nfinal tension: 4.0\n")
        self.config = c; self.work = os.path.join(self.dir, "work"); os.mkdir(self.work)
    def gone(self): shutil.rmtree(self.dir, ignore_errors=True)
    def harm(self, kind):
        """True when a fault of this kind happens at this call."""
        f = self.fault
        if f is None or f["kind"] != kind: return False
        f["calls"] = f.get("calls", 0) + 1
        if f["calls"] != f["at"]: return False
        self.sim.count("f:" + kind); op = self.sim.current.op
        if op is not None: self.tainted.add(str(op.ctx))
        return True
    def touched(self, op, ctx):
        """A request talks to a backend on behalf of a context."""
        if op.ctx is not None and str(op.ctx) != ctx and op.kind != "CLOSE": self.sim.fail("wrong_context", "%s talks to a backend for context %s" % (op, ctx))
        iv = self.intervals.setdefault(ctx, {}); s = self.sim.step; self.sim.note("touches " + ctx)
        for o, (a, b) in iv.items():
            if o is not op and op in iv and b > iv[op][0]: self.sim.fail("overlap", "context %s: '%s' and '%s' are served at the same time" % (ctx, op, o))
        a = iv.get(op, (s, s))[0]; iv[op] = (a, s)
    def popen(self, cmd, *a, **k):
        if self.harm("popen_fails"): raise OSError(errno.EAGAIN, "Resource temporarily unavailable")
        self.sim.point()
        if isinstance(cmd, str): cmd = cmd.split()
        n = os.path.basename(cmd[0]); sim = self.sim
        if n == "fast_align": p = FastAlign(self, "-r" in cmd)
        elif n == "atools": p = Atools(self)
        elif n.startswith("tokenize"): p = Filter(self, "tokenizer", tok)
        elif n.startswith("untok"): p = Filter(self, "detokenizer", untok)
        elif n in ("kbest_cut_mira", "cdec"): p = Mira(self, cmd)
        elif "cdec.sa.extract" in cmd: p = Extractor(self)
        else: raise OSError(errno.ENOENT, "No such file or directory: " + cmd[0])
        if "stderr" not in k or k.get("stderr") is None: p.noisy = 0
        f = self.fault
        if f and f["kind"] == "process_dies" and p.name.split(".")[0] == f["who"]:
            f["n"] = f.get("n", 0) + 1
            if f["n"] == f["which"]: p.die_at = f["at"]; self.doomed = p
        return p
    # files
    def open(self, name, mode="r", *a, **k):
        if name in self.fifos: self.sim.point(); return self.fifos[name]
        w = any(x in mode for x in "wa+x")
        if name.endswith(".state"):
            if self.harm("open_fails"): raise IOError(errno.EACCES, "Permission denied", name)
            if w and self.fault and self.fault["kind"] == "disk_full": return Full(self, builtins.open(name, mode))
        self.sim.point()
        return builtins.open(name, mode, *a, **k)
    def mkdir(self, p, *a):
        if self.harm("mkdir_fails"): raise OSError(errno.ENOSPC, "No space left on device", p)
        self.sim.point(); return os.mkdir(p, *a)
    def mkstemp(self, suffix="", prefix="tmp", dir=None, text=False):
        if self.harm("mkstemp_fails"): raise OSError(errno.ENOSPC, "No space left on device")
        self.sim.point(); self.temps += 1
        p = os.path.join(dir or self.work, "%s%06d%s" % (prefix, self.temps, suffix)); return os.open(p, os.O_RDWR | os.O_CREAT | os.O_EXCL, 0o600), p
    def mkdtemp(self, suffix="", prefix="tmp", dir=None):
        self.temps += 1; p = os.path.join(dir or self.work, "%s%06d%s" % (prefix, self.temps, suffix)); os.mkdir(p, 0o700); return p
    def mkfifo(self, p, *a): self.sim.point(); self.fifos[p] = Fifo(self.sim); os.close(os.open(p, os.O_CREAT | os.O_EXCL, 0o600))
    def kill(self, pid, sig):
        for p in self.sim.procs:
            if p.pid == pid and not p.dead: p.exit(-int(sig))
        self.sim.point()
    def rmtree(self, p, *a, **k):
        self.sim.point()
        if not os.path.realpath(p).startswith(os.path.realpath(self.dir) + os.sep): self.sim.fail("escape", "rmtree of %s" % p)
        shutil.rmtree(p, *a, **k)
    def remove(self, p): self.sim.point(); os.remove(p)
    def load(self, stdin_text=""):
        """A fresh copy of the service's modules, as in a fresh process."""
        th, q = make_threading(self.sim); self.threading = th
        W = self
        class StringIOModule(types.ModuleType): pass
        sio = types.ModuleType("StringIO"); sio.StringIO = io.StringIO
        self.stdout, self.stderr = io.StringIO(), io.StringIO(); stdin = io.StringIO(stdin_text)
        self.sys = Proxy(sys, stdin=stdin, stdout=self.stdout, stderr=self.stderr, argv=["realtime.py"])
        class ConfigObj(dict):
            def __init__(s, f=None, **k):
                s.filename = f
                for l in open(f):
                    a, _, b = l.partition("="); s[a.strip()] = eval(b) if b.strip() else ""
            def write(s):
                with open(s.filename, "w") as o:
                    for a, b in s.items(): o.write("%s = %r\n" % (a, b))
        cdec = types.ModuleType("cdec"); cdec.configobj = types.ModuleType("configobj"); cdec.configobj.ConfigObj = ConfigObj
        sim = self.sim
        def sleep(s):
            me = sim.current; me.wake = sim.clock + s; sim.block(lambda: sim.clock >= me.wake, "sleep"); me.wake = None
        def now(): sim.clock += 0.001; return sim.clock
        osp = Proxy(os, mkdir=self.mkdir, makedirs=self.mkdir, mkfifo=self.mkfifo, kill=self.kill, remove=self.remove, unlink=self.remove)
        shims = dict(threading=th, Queue=q, queue=q, StringIO=sio, cdec=cdec, sys=self.sys, os=osp,
                     subprocess=Proxy(real_subprocess, Popen=self.popen), time=Proxy(time, time=now, sleep=sleep, monotonic=now),
                     tempfile=Proxy(tempfile, mkstemp=self.mkstemp, mkdtemp=self.mkdtemp), shutil=Proxy(shutil, rmtree=self.rmtree))
        shims["io"] = Proxy(io, open=self.open)
        self.imp = Importer([RT, os.path.join(RT, "rt")], shims, dict(open=self.open, file=self.open), self.sim)
        self.sim.no_preempt += 1
        try:
            m = self.imp.load("rt", os.path.join(RT, "rt", "rt.py"))
            pkg = types.ModuleType("rt package")
            for k, v in vars(m).items():
                if not k.startswith("__"): setattr(pkg, k, v)
            self.rt = m
            shims["rt"] = pkg
        finally: self.sim.no_preempt -= 1
        return m

class Full:
    """A file on a disk that gets full."""
    def __init__(self, w, f): self.w, self.f, self.left, self.hit = w, f, w.fault["at"], False
    def write(self, s):
        self.w.sim.point()
        if len(s) > self.left:
            self.f.write(s[:self.left]); self.left = 0
            if not self.hit: self.hit = True; self.w.sim.count("f:disk_full"); op = self.w.sim.current.op; self.w.tainted.add(str(op.ctx) if op else "?")
            raise IOError(errno.ENOSPC, "No space left on device")
        self.left -= len(s); return self.f.write(s)
    def writelines(self, l):
        for s in l: self.write(s)
    def flush(self): self.f.flush()
    def close(self): self.f.close()
    def __enter__(self): return self
    def __exit__(self, *a): self.close()

# ------------------------------------------------------------------ requests
WORDS = ["a", "b", "c", "q", "Dog", "cat.", "x,y", "=", "EOF", "z"]
def sentence(r, few):
    if few: return ["a b", "c", "q", "a Dog", "EOF", "b c a"][r.below(6)]
    return " ".join(WORDS[r.below(len(WORDS))] for _ in range(1 + r.below(4)))
class Gen:
    def __init__(self, w, r, names, saved): self.w, self.r, self.names, self.saved, self.n = w, r, names, saved, 0
    def op(self, kinds=None):
        r = self.r; ctx = self.names[r.below(len(self.names))]; few = True
        k = (kinds or ["TR", "TR", "TR", "TR", "LEARN", "LEARN", "LEARN", "SAVE", "LOAD", "DROP", "DROP", "LIST", "DROP"])[r.below(len(kinds) if kinds else 13)]
        if k == "TR": a = ["" if r.coin(0.03) else sentence(r, r.coin(0.7))]
        elif k == "LEARN": a = [sentence(r, r.coin(0.7)), "" if r.coin(0.03) else sentence(r, r.coin(0.5))]
        elif k == "SAVE": self.n += 1; a = [os.path.join(self.w.dir, "s%d.state" % self.n)]
        elif k == "LOAD": a = [self.state()]
        else: a = []
        return Op(k, ctx, a)
    def state(self):
        """A saved state, maybe damaged: (text or None for a missing file)."""
        r = self.r; m = Model(1, self.w.hpyplm, False); c = Ctx()
        for _ in range(r.below(4)): c, _x = m.apply(c, "LEARN", [tok(sentence(r, False)), tok(sentence(r, False))])
        t = "".join(m.state(c)); k = r.below(10)
        if k == 0: return t[:r.below(len(t))]
        if k == 1: return t.replace(" ||| ", " | ", 1)
        if k == 2: return "f1=x" + t
        if k == 3: return None
        if k == 4: return t[:-4]
        if k == 5: return ""
        return t

def call(w, tr, op, cmdline):
    """Issues one request in the current task."""
    me = w.sim.current; me.op = op; op.inv = w.sim.step; w.sim.note("call %s" % op)
    try:
        args, direct = list(op.args), None
        if op.kind == "LOAD":
            f = os.path.join(w.dir, "l%d.state" % id(op)); w.loads = getattr(w, "loads", 0) + 1; f = os.path.join(w.dir, "l%d.state" % w.loads)
            if op.args[0] is not None: builtins.open(f, "w").write(op.args[0])
            args = [f]
        if op.kind == "SAVE" and cmdline == 2: args = [io.StringIO()]; cmdline = 0
        if op.kind == "LOAD" and cmdline == 2 and op.args[0] is not None: args = [io.StringIO(op.args[0])]; cmdline = 0
        if cmdline and not any(a == "" for a in args):
            r = tr.command_line(" ||| ".join([op.kind + ("" if op.ctx is None else " " + op.ctx)] + args))
        else:
            f = dict(TR=tr.translate, LEARN=tr.learn, SAVE=tr.save_state, LOAD=tr.load_state, DROP=tr.drop_ctx, LIST=tr.list_ctx)[op.kind]
            r = f(*args, ctx_name=op.ctx)
        if op.kind == "SAVE":
            if isinstance(args[0], io.StringIO): r = args[0].getvalue()
            else: r = builtins.open(args[0]).read()
        op.reply = r
    except Exception as e:
        op.exc = e
        if w.sim.failure is None: w.sim.note("raises %s: %s" % (type(e).__name__, e))
    op.ret = w.sim.step; me.op = None
    if op.exc is None: w.sim.note("reply to %s: %r" % (op, op.reply))

def expected_exception(w, op):
    return op.kind == "LOAD" and op.args[0] is None     # no such file

def check_context(w, model, ctx, ops):
    """Is there an order of the requests that respects time and arrival and explains every reply?"""
    ops = [o for o in ops if o.kind != "LIST"]
    n = len(ops); before = [0] * n
    for i, a in enumerate(ops):
        for j, b in enumerate(ops):
            if i != j and (a.ret < b.inv or (a.blocked_at is not None and a.blocked_at < b.inv and not w.norm)): before[j] |= 1 << i
    seen = set(); best = [0, None]
    def dfs(done, c):
        if done == (1 << n) - 1: return True
        k = (done, c.key() if c else "")
        if k in seen: return False
        seen.add(k)
        for i, o in enumerate(ops):
            if done >> i & 1 or before[i] & ~done: continue
            if o.exc is not None: c2, ok = c, True       # a missing file: no effect (but the context exists)
            else:
                c2, reply = model.apply(c, o.kind, o.args)
                ok = (reply or None) == (o.reply or None)
            if not ok:
                d = bin(done).count("1")
                if best[1] is None or d >= best[0]: best[0], best[1] = d, "'%s' gets %r, not %r" % (o, o.reply, reply)
            if ok and dfs(done | 1 << i, c2): return True
        return False
    if len(ops) and not dfs(0, None): raise Failure("wrong_reply", "context %s: no order of its requests explains the replies; %s" % (ctx, best[1]))

def check_lists(w, ops):
    for l in ops:
        if l.kind != "LIST" or l.exc: continue
        m = re.match(r"ctx_name \|\|\| ?(.*)$", l.reply or "")
        if not m: raise Failure("wrong_reply", "LIST gets %r" % l.reply)
        got = m.group(1).split()
        if got != sorted(got) or len(set(got)) != len(got): raise Failure("wrong_reply", "LIST gets %r" % l.reply)
        for name in set(str(o.ctx) for o in ops) | set(got):
            mine = [o for o in ops if str(o.ctx) == name and o.kind != "LIST"]
            made = [o for o in mine if o.kind in ("TR", "LEARN", "SAVE", "LOAD")]
            if name in got and not any(o.inv <= l.ret for o in made): raise Failure("wrong_reply", "LIST names %s, which nobody has asked for" % name)
            drops = [o for o in mine if o.kind in ("DROP", "LOAD")]
            for o in made:
                if o.exc is None and o.ret < l.inv and not any(d.inv <= l.ret and d.ret >= o.inv and d is not o for d in drops) and name not in got and not (o.kind == "LOAD"):
                    raise Failure("wrong_reply", "LIST does not name %s, which has been served '%s'" % (name, o))

def setup(ch, faults):
    hpyplm, norm, cache = ch.coin("hpyplm", 0.35), ch.coin("norm", 0.2), ch.pick("cache", [5, 5, 1, 2, 1, 0])
    w = World(ch, [0.0, 0.002, 0.01, 0.03, 0.1][ch.param("rate", 0, 4)], hpyplm, norm, cache)
    if faults and ch.coin("faulty", 0.45):
        r = ch.content("fault")
        k = ch.pick("fault_kind", ["process_dies", "process_dies", "open_fails", "disk_full", "mkdir_fails", "popen_fails", "mkstemp_fails"])
        f = dict(kind=k, at=1 + r.below(4))
        if k == "process_dies": f.update(who=["decoder", "decoder", "extractor", "fast_align", "atools", "tokenizer"][r.below(6)], which=1 + r.below(3), at=1 + r.below(6))
        if k == "disk_full": f.update(at=r.below(120))
        if k == "popen_fails": f.update(at=1 + r.below(3))
        w.fault_plan = f
    else: w.fault_plan = None
    return w, Model(cache, hpyplm, norm)

def start_fault(w):
    """Faults hit requests; the start of the service is not disturbed."""
    w.fault = w.fault_plan
    f = w.fault
    if f and f["kind"] == "process_dies" and f["who"] != "decoder":
        for p in w.sim.procs:
            if p.name.split(".")[0] == f["who"]: p.die_at = p.handled + f["at"]

SHARED = ("extractor", "fast_align", "atools", "tokenizer", "detokenizer")
def judge(w, model, ops):
    sim = w.sim; f = w.fault
    shared_dead = f and f["kind"] == "process_dies" and f["who"] != "decoder" and sim.counters.get("f:process_dies")
    tainted = set(w.tainted)
    if f and f["kind"] == "process_dies" and f["who"] == "decoder" and sim.counters.get("f:process_dies"):
        tainted |= set(p.ctx for p in sim.procs if isinstance(p, Mira) and p.returncode not in (None, 0))
    for o in ops:
        if o.exc is not None and not expected_exception(w, o) and str(o.ctx) not in tainted and not shared_dead:
            raise Failure("exception", "'%s' raises %s: %s" % (o, type(o.exc).__name__, o.exc))
        if expected_exception(w, o) and o.exc is None and False: raise Failure("wrong_reply", "LOAD of a missing file succeeds")
    if shared_dead:
        return
    by = {}
    for o in ops: by.setdefault(str(o.ctx), []).append(o)
    for c in sorted(by):
        if c not in tainted: check_context(w, model, c, by[c])
    check_lists(w, [o for o in ops if str(o.ctx) not in tainted or o.kind == "LIST"] if not tainted else [])
    return by, tainted

def after_faults(w, tr, model, ops):
    """Faults are over: a context that failed works again once it is dropped."""
    for name in sorted(w.tainted):
        c = None if name == "None" else name
        d = Op("DROP", c, []); call(w, tr, d, 0)
        if d.exc is not None: raise Failure("not_reset", "after a failed request context %s cannot be dropped: %s: %s" % (name, type(d.exc).__name__, d.exc))
        o = Op("TR", c, ["a b"]); call(w, tr, o, 0)
        _, want = model.apply(None, "TR", ["a b"])
        if o.exc is not None: raise Failure("not_reset", "after a failed request context %s does not work even when it is dropped: %s: %s" % (name, type(o.exc).__name__, o.exc))
        if o.reply != want: raise Failure("not_reset", "context %s, dropped after a failed request, answers %r, not %r" % (name, o.reply, want))

def r01(ch):
    w, model = setup(ch, True)
    try:
        if ch.coin("by_main", 0.12): return by_main(ch, w, model, None)
        names = ["a", "b", None, "user_1"][:ch.param("contexts", 1, 4)]
        nthreads = ch.param("threads", 1, 4); plan = []
        for t in range(nthreads):
            r = ch.content("ops%d" % t); g = Gen(w, r, names, None); g.n = 100 * t
            plan.append([(g.op(), r.below(3)) for _ in range(ch.param("n%d" % t, 1, 5))])
        sim = w.sim; result = {}
        def main():
            rt = w.load()
            tr = rt.RealtimeTranslator(w.config, tmpdir=w.work, cache_size=w.cache, norm=w.norm)
            start_fault(w)
            def client(l):
                for op, how in l: w.ops.append(op); call(w, tr, op, how)
            clients = []
            for i, l in enumerate(plan): clients.append(sim.spawn("client%d" % i, lambda l=l: client(l)))
            for c in clients: c.fatal = True
            sim.block(lambda: all(c.done for c in clients), "clients")
            shared = [p for p in sim.procs if p.name.split(".")[0] in SHARED and p.dead]
            judge(w, model, w.ops)
            w.fault = None
            if not shared:
                if sim.counters.get("f:process_dies"): w.tainted |= set(p.ctx for p in sim.procs if isinstance(p, Mira) and p.returncode not in (None, 0))
                after_faults(w, tr, model, w.ops)
            me = sim.current; me.op = Op("CLOSE", None, []); left = os.listdir(w.work)
            tr.close()
            if os.listdir(w.work): raise Failure("left_over", "close leaves %s behind" % os.listdir(w.work))
            for p in sim.procs:
                if not p.dead: raise Failure("left_over", "close leaves %s running" % p.name)
            me.op = None
        m = sim.spawn("main", wrap(sim, main)); sim.run()
        ops = w.ops
        trivial = nthreads == 1 or sim.switches < 4
        if not trivial and any(a is not b and str(a.ctx) == str(b.ctx) and a.inv < b.ret and b.inv < a.ret for a in ops for b in ops if a.ret and b.ret): sim.count("p:same_context_concurrent")
        for o in ops: sim.count("p:" + o.kind.lower())
        return w, trivial
    finally: w.gone()

def wrap(sim, fn):
    def f():
        try: fn()
        except Failure as e: sim.fail(e.cls, e.msg)
        except SimAbort: raise
        except Exception as e:
            import traceback
            sim.note(traceback.format_exc())
            sim.fail("exception", "%s: %s" % (type(e).__name__, e))
        except SystemExit as e: sim.fail("exception", "exits with %s" % e)
    return f

def by_main(ch, w, model, start_state):
    """The command line service: requests one per line on standard input."""
    r = ch.content("text"); names = ["a", "b", None][:ch.param("contexts", 1, 3)]; g = Gen(w, r, names, None)
    cs, want, lines = {}, [], []
    if start_state is not None:
        cs["None"], _ = model.apply(None, "LOAD", [start_state])
    for i in range(ch.param("lines", 1, 10)):
        o = g.op(["TR", "TR", "LEARN", "LEARN", "SAVE", "LOAD", "DROP", "LIST", "BAD"]); n = str(o.ctx)
        head = o.kind + ("" if o.ctx is None else " " + o.ctx)
        if o.kind == "BAD": lines.append(["NOPE a ||| b", "TR", "", "TR a ||| b ||| c"][r.below(4)]); continue
        if any(a == "" for a in o.args if a is not None): continue
        if o.kind == "LOAD":
            if o.args[0] is not None and r.coin(0.4) and model.parse(o.args[0]) is not None:
                c = cs.get(n)
                if c and c.data: continue
                lines.append(head); lines += o.args[0].split("\n")[:-1]
            else:
                f = os.path.join(w.dir, "in%d.state" % i)
                if o.args[0] is not None: builtins.open(f, "w").write(o.args[0])
                lines.append(head + " ||| " + f)
        elif o.kind == "SAVE":
            if r.coin(0.5): lines.append(head); o.args = []
            else: lines.append(head + " ||| " + o.args[0])
        else: lines.append(" ||| ".join([head] + o.args))
        if o.kind == "LIST": want.append("ctx_name ||| " + " ".join(sorted(cs))); continue
        c, reply = model.apply(cs.get(n), o.kind, o.args)
        if c is None: cs.pop(n, None)
        else: cs[n] = c
        if o.kind == "TR" and reply: want.append(reply)
        if o.kind == "SAVE":
            if not o.args: want += reply.split("\n")[:-1]
    sim = w.sim
    def main():
        w.load("".join(l + "\n" for l in lines))
        w.sim.no_preempt += 1
        try: m = w.imp.load("realtime_main", os.path.join(RT, "realtime.py"))
        finally: w.sim.no_preempt -= 1
        w.sys.argv[:] = ["realtime.py", "-c", w.config, "-T", w.work, "-a", str(w.cache)] + (["-n"] if w.norm else [])
        if start_state is not None:
            f = os.path.join(w.dir, "start.state"); builtins.open(f, "w").write(start_state); w.sys.argv += ["-s", f]
        sys.argv[:] = w.sys.argv     # (argparse looks here)
        m.main()
        got = w.stdout.getvalue().split("\n")[:-1]
        if got != want:
            k = 0
            while k < len(got) and k < len(want) and got[k] == want[k]: k += 1
            raise Failure("wrong_reply", "line %d of the output is %r, not %r (input: %r)" % (k, got[k] if k < len(got) else None, want[k] if k < len(want) else None, lines))
        if os.listdir(w.work): raise Failure("left_over", "the service leaves %s behind" % os.listdir(w.work))
    sim.spawn("main", wrap(sim, main)); sim.run()
    sim.count("p:command_line")
    return w, len(want) < 2

def r02(ch):
    w, model = setup(ch, False)
    try:
        r = ch.content("history"); names = ["a", "b", None]; g = Gen(w, r, names, None); ctx = names[ch.param("ctx", 0, 2)]
        first = [g.op(["TR", "LEARN", "LEARN", "TR", "DROP"] if i == 0 else ["TR", "LEARN", "LEARN", "LEARN"]) for i in range(ch.param("before", 0, 8))]
        for o in first:
            if r.coin(0.7): o.ctx = ctx
        harm = ch.pick("harm", ["none", "none", "none", "cut", "cut", "junk", "crash"])
        how = ch.param("how", 0, 2); sim = w.sim; box = {}
        cs = {}
        for o in first:
            c, _ = model.apply(cs.get(str(o.ctx)), o.kind, o.args)
            if c is None: cs.pop(str(o.ctx), None)
            else: cs[str(o.ctx)] = c
        path = os.path.join(w.dir, "saved.state")
        second = [g.op(["TR", "TR", "LEARN"]) for i in range(ch.param("after", 1, 6))]
        others = [g.op(["TR", "LEARN", "LIST"]) for i in range(ch.param("others", 0, 3))]
        for o in second: o.ctx = ctx
        for o in others: o.ctx = names[(names.index(ctx) + 1) % 3]
        def one():
            rt = w.load(); tr = rt.RealtimeTranslator(w.config, tmpdir=w.work, cache_size=w.cache, norm=w.norm)
            for o in first: w.ops.append(o); call(w, tr, o, how)
            s = Op("SAVE", ctx, [path]); call(w, tr, s, how if how < 2 else 0)
            if s.exc: raise Failure("exception", "SAVE raises %s: %s" % (type(s.exc).__name__, s.exc))
            box["text"] = s.reply
            judge(w, model, w.ops + [s])
            if harm != "crash": tr.close()
            else:       # the machine stops: processes end, the file stays
                for p in sim.procs: p.exit(-9)
            # a fresh service
            text = box["text"]
            if harm == "cut": text = text[:ch.param("cut", 0, 4000) % (len(text))]; builtins.open(path, "w").write(text); sim.count("f:state_cut")
            if harm == "junk": l = text.split("\n"); l.insert(ch.param("junk", 0, 50) % len(l), "one ||| two"); text = "\n".join(l); builtins.open(path, "w").write(text); sim.count("f:state_damaged")
            if ch.coin("copies", 0.2) and harm in ("none", "crash"):     # saved again from the restored context
                pass
            box["load"] = text
            if via_main: box["again"] = True; return
            w.intervals.clear()
            rt = w.load(); tr = rt.RealtimeTranslator(w.config, tmpdir=w.work, cache_size=w.cache, norm=w.norm)
            ops2 = []
            def restored():
                l = Op("LOAD", ctx, [text]); ops2.append(l); call(w, tr, l, how)
                for o in second: ops2.append(o); call(w, tr, o, how)
                s = Op("SAVE", ctx, [path + "2.state"]); ops2.append(s); call(w, tr, s, 0)
            def other():
                for o in others: ops2.append(o); call(w, tr, o, how)
            cl = [sim.spawn("restored", restored), sim.spawn("others", other)]
            for c in cl: c.fatal = True
            sim.block(lambda: all(c.done for c in cl), "clients")
            judge(w, model, ops2)
            # the restored context must be the one that was saved
            good = model.parse(text) is not None
            if harm in ("none", "crash"):
                c0 = cs.get(str(ctx)) or Ctx(); c = c0.copy(); c.cache, c.order = {}, []
                for o in second:
                    c, want = model.apply(c, o.kind, o.args)
                    if o.kind == "TR" and (o.reply or None) != (want or None): raise Failure("not_restored", "'%s' gets %r from the restored context, not %r" % (o, o.reply, want))
            tr.close()
        via_main = ch.coin("by_main", 0.2)
        sim.spawn("main", wrap(sim, one)); sim.run()
        if via_main:
            w2 = World(ch, 0.0, w.hpyplm, w.norm, w.cache)
            w2.fault_plan = None
            try: by_main(ch, w2, model, box["load"])
            finally: w2.gone()
        sim.count("p:" + harm)
        return w, len((cs.get(str(ctx)) or Ctx()).data) == 0
    finally: w.gone()

PROPS = {"R01": r01, "R02": r02}

# ------------------------------------------------------------------ runs, replays, minimisation
def execute(prop, seed, replay, verbose=False):
    """One run in a process of its own; returns a dictionary."""
    rfd, wfd = os.pipe(); pid = os.fork()
    if pid == 0:
        os.close(rfd); res = dict(kind="error", cls="", msg="?", params={}, sched={}, hash=0, counters={}, steps=0, switches=0, trivial=False, notes=[], procs=0, clock=0)
        gc.disable(); ch = Choices(seed, replay); keep = []
        orig = Sim.__init__
        def init(s, *a, **k): orig(s, *a, **k); keep.append(s)
        Sim.__init__ = init
        try:
            signal.alarm(120)
            w, trivial = PROPS[prop](ch); res.update(kind="ok", trivial=trivial)
        except Failure as f: res.update(kind="violation", cls=f.cls, msg=f.msg)
        except Skip as s: res.update(kind="skip", msg=str(s))
        except BaseException as e:
            import traceback
            res.update(kind="error", msg=traceback.format_exc()[-1500:])
        for s in keep:
            res["steps"] += s.step - s.first; res["switches"] += s.switches; res["procs"] += len(s.procs); res["clock"] += s.clock; res["notes"] += s.notes[-400:]
            for k, v in s.counters.items(): res["counters"][k] = res["counters"].get(k, 0) + v
            res["hash"] ^= h64(s.trace_hash.digest())
        res["hash"] ^= h64(repr(sorted(ch.params.items())) + res["kind"] + res["cls"] + re.sub(r"/\S*rtsim\.\w+", "DIR", res["msg"]))
        res["params"], res["sched"] = ch.params, ch.sched
        try:
            try: b = pickle.dumps(res)
            except BaseException as e: b = pickle.dumps(dict(res, kind="error", msg="the result cannot be written: %r" % e, notes=[], params={}, sched={}, counters={}))
            with os.fdopen(wfd, "wb") as f: f.write(b)
        finally: os._exit(0)
    os.close(wfd)
    with os.fdopen(rfd, "rb") as f: b = f.read()
    status = os.waitpid(pid, 0)[1]
    try: return pickle.loads(b)
    except Exception: return dict(kind="error", cls="", msg="the run died (status %d)" % status, params={}, sched={}, hash=0, counters={}, steps=0, switches=0, trivial=False, notes=[], procs=0, clock=0)

def write_replay(path, prop, seed, res):
    with open(path, "w") as f:
        f.write("property %s\nseed %d\nclass %s\nmsg %s\nhash %d\n" % (prop, seed, res["cls"], res["msg"].replace("\n", " ")[:600], res["hash"]))
        for k, v in sorted(res["params"].items()):
            f.write("param %s %d\n" % (k, v))
        for k, v in sorted(res["sched"].items()): f.write("switch %d %d\n" % (k, v))
def read_replay(path):
    prop, seed, cls, params, sched = None, 0, "", {}, {}
    for l in open(path, errors="replace"):
        p = l.split()
        if not p: continue
        if p[0] == "property": prop = p[1]
        elif p[0] == "seed": seed = int(p[1])
        elif p[0] == "class": cls = p[1]
        elif p[0] == "param": params[p[1]] = int(p[2])
        elif p[0] == "switch": sched[int(p[1])] = int(p[2])
    return prop, seed, cls, params, sched

def minimise(prop, seed, cls, params, sched, seconds):
    end = time.time() + seconds
    def attempt(p, s):
        r = execute(prop, seed, (p, s))
        return r if r["kind"] == "violation" and r["cls"] == cls else None
    best = attempt(params, sched)
    if best is None: return None
    changed = True
    while changed and time.time() < end:
        changed = False
        keys = sorted(best["sched"]); n = max(1, len(keys) // 2)
        while keys and time.time() < end:
            i = 0
            while i < len(keys) and time.time() < end:
                drop = set(keys[i:i + n]); r = attempt(best["params"], {k: v for k, v in best["sched"].items() if k not in drop})
                if r and len(r["sched"]) < len(best["sched"]): best = r; keys = sorted(best["sched"]); changed = True
                else: i += n
            if n == 1: break
            n = max(1, n // 2)
        for k in sorted(best["params"]):
            for v in (0, best["params"][k] // 2, best["params"][k] - 1):
                if time.time() > end or k not in best["params"] or v < 0 or v >= best["params"][k]: continue
                q = dict(best["params"]); q[k] = v; r = attempt(q, best["sched"])
                if r and r["params"].get(k, 0) <= v and len(r["sched"]) <= len(best["sched"]) + 2: best = r; changed = True; break
    return best

def main():
    for d in (RT, os.path.join(RT, "rt")):      # (compiled once, before the runs are forked)
        for f in sorted(os.listdir(d)):
            if f.endswith(".py"):
                try: load_source(os.path.join(d, f), True)
                except Exception: pass
    a = dict(zip(sys.argv[1::2], sys.argv[2::2])); v = "--verbose" in sys.argv
    if "--replay" in sys.argv:
        prop, seed, cls, params, sched = read_replay(sys.argv[sys.argv.index("--replay") + 1])
        if "--minimise" in sys.argv:
            r = minimise(prop, seed, cls, params, sched, float(sys.argv[sys.argv.index("--min-seconds") + 1]) if "--min-seconds" in sys.argv else 30)
            if r is None: print("does not reproduce"); sys.exit(2)
            write_replay(sys.argv[sys.argv.index("--minimise") + 1], prop, seed, r); sys.exit(0)
        r = execute(prop, seed, (params, sched))
        print("REPLAY %s class=%s hash=%d" % (r["kind"], r["cls"], r["hash"])); print(r["msg"])
        if v or r["kind"] == "violation": print("\n".join(r["notes"] if v else r["notes"][-60:]))
        sys.exit(1 if r["kind"] == "violation" else 0 if r["kind"] == "ok" else 2)
    prop, seed, n, me = a["--prop"], int(a.get("--seed", 1)), int(a.get("--workers", 1)), int(a.get("--worker", 0))
    seconds, runs = float(a.get("--seconds", 1e9)), int(a.get("--runs", 0)); twice = int(a.get("--twice", 5)); t0 = time.time()
    out = dict(runs=0, nontrivial=0, skipped=0, errors=0, mismatches=0, twice_checked=0, steps=0, switches=0, io_calls=0, sim_ns=0, phases=0, seconds=0, counters={}, samples=[], violations=[], skips=[], error="")
    seen, i = set(), 0
    while (time.time() - t0 < seconds) and (not runs or i < runs) and not (a.get("--stop-file") and os.path.exists(a["--stop-file"])):
        s = seed * 1000000007 + me + n * i; i += 1
        r = execute(prop, s, None); out["runs"] += 1
        if i <= twice:
            out["twice_checked"] += 1; r2 = execute(prop, s, None)
            if r2["hash"] != r["hash"] or r2["kind"] != r["kind"]: out["mismatches"] += 1
            r3 = execute(prop, s, (r["params"], r["sched"]))
            if r3["hash"] != r["hash"]: out["mismatches"] += 1
        for k in ("steps", "switches"): out[k] += r[k]
        out["phases"] += r["procs"]; out["sim_ns"] += int(r["clock"] * 1e9)
        for k, x in r["counters"].items(): out["counters"][k] = out["counters"].get(k, 0) + x
        if r["kind"] == "skip": out["skipped"] += 1; out["skips"].append(r["msg"]); continue
        if r["kind"] == "error": out["errors"] += 1; out["error"] = "seed %d: %s" % (s, r["msg"]); continue
        if r["kind"] == "violation":
            p = os.path.join(a.get("--replay-dir", "."), "raw-%s-%d.replay" % (prop, s)); write_replay(p, prop, s, r); out["violations"].append(p)
            if len(out["violations"]) >= int(a.get("--max-violations", 2)): break
            continue
        if not r["trivial"]:
            out["nontrivial"] += 1; seen.add(r["hash"])
            if len(out["samples"]) < 2: out["samples"].append(json.dumps(dict(seed=s, steps=r["steps"], switches=r["switches"], params={k: x for k, x in list(r["params"].items())[:12]})))
    out["seconds"] = time.time() - t0; out["skips"] = sorted(set(out["skips"]))[:5]
    if "--out" in a:
        json.dump(out, open(a["--out"], "w")); open(a["--out"] + ".seen", "wb").write(struct.pack("<%dQ" % len(seen), *sorted(seen)))
    else: print(json.dumps(out, indent=1))

if __name__ == "__main__": main()
