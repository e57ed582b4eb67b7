"""Runtime of one simulated run: seeded scheduler over client threads, simulated
disk, allocator seam, interrupts, clock, randomness, event log.

Everything a run does is a function of (plan, code under test).  Nothing in here
draws from a PRNG while the run is going on: all choices are in the plan."""
import builtins, ctypes, errno, fnmatch, gzip, hashlib, io, json, os, random, sys, threading, time, uuid


class Violation(Exception):
    def __init__(self, kind, detail=""):
        Exception.__init__(self, "%s: %s" % (kind, detail))
        self.kind, self.detail = kind, str(detail)


class HarnessError(Exception):
    pass


class SimCrash(BaseException):
    """the simulated process dies here; only what reached the disk survives"""


class Injected(Exception):
    """raised by callbacks of the workload on purpose"""


class StepLimit(BaseException):
    pass


# --------------------------------------------------------------------------
# allocator seam
# --------------------------------------------------------------------------
class _AllocState(ctypes.Structure):
    _fields_ = [(k, ctypes.c_int64) for k in
                ("fill", "count", "fail_at", "fail_min", "failed", "live_bytes",
                 "live_blocks", "filled", "persist", "voro_bytes", "voro_blocks", "voro_failed")]


class Alloc:
    def __init__(self, modules):
        self.st = {}
        for m in modules:
            lib = ctypes.CDLL(m.__file__)
            self.st[m.__name__.rsplit(".", 1)[-1]] = _AllocState.in_dll(lib, "sim_alloc_state")

    def fill(self, seed):
        for s in self.st.values():
            s.fill = seed

    def arm(self, module, n, fail_min=0, persist=0):
        s = self.st[module]
        s.count, s.failed, s.fail_min, s.persist = 0, 0, fail_min, persist
        s.fail_at = n

    def disarm(self):
        n = 0
        for s in self.st.values():
            n += s.failed
            s.fail_at, s.failed, s.persist = -1, 0, 0
        return n

    def count_of(self, module, fail_min=0):
        return self.st[module].count

    def reset_count(self, fail_min=0):
        for s in self.st.values():
            s.count, s.fail_min = 0, fail_min

    def live(self):
        return (sum(s.live_bytes for s in self.st.values()),
                sum(s.live_blocks for s in self.st.values()))

    def voro(self):
        """bytes and blocks that voro++ asked for and holds, and how often it was refused"""
        return tuple(sum(getattr(s, k) for s in self.st.values()) for k in ("voro_bytes", "voro_blocks", "voro_failed"))


# --------------------------------------------------------------------------
# simulated disk
# --------------------------------------------------------------------------
_real_open = builtins.open
_real_io_open = io.open


class SimRaw(io.FileIO):
    """unbuffered file on the simulated disk: every raw operation passes the
    fault table and is a yield point of the scheduler"""

    def __init__(self, fs, path, mode):
        io.FileIO.__init__(self, path, mode)
        self._fs, self._name = fs, os.path.basename(path)
        self._fs.open_files += 1
        self._counted = True

    def readinto(self, b):
        f = self._fs.step(self._name, "read")
        mv = memoryview(b).cast("B")
        if f:
            if f["kind"] == "EIO":
                raise OSError(errno.EIO, "simulated I/O error", self._name)
            if f["kind"] == "short" and len(mv) > 1:
                mv = mv[:max(1, min(len(mv) - 1, f.get("n_bytes", 1)))]
        if self._fs.read_chunk and len(mv) > self._fs.read_chunk:
            mv = mv[:self._fs.read_chunk]
        return io.FileIO.readinto(self, mv)

    def readall(self):
        out = bytearray()
        buf = bytearray(8192)
        while True:
            n = self.readinto(buf)
            if not n:
                return bytes(out)
            out += buf[:n]

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        buf = bytearray(size)
        n = self.readinto(buf)
        return bytes(buf[:n])

    def write(self, b):
        fs = self._fs
        f = fs.step(self._name, "write")
        mv = memoryview(b).cast("B")
        n = len(mv)
        if f:
            k = f["kind"]
            if k == "EIO":
                raise OSError(errno.EIO, "simulated I/O error", self._name)
            if k == "ENOSPC":
                part = min(n - 1, f.get("n_bytes", 0))
                if part > 0:
                    io.FileIO.write(self, mv[:part])
                fs.full.add(fs.ctx.client())
                raise OSError(errno.ENOSPC, "simulated full disk", self._name)
            if k == "crash":
                part = min(n, f.get("n_bytes", 0))
                if part > 0:
                    io.FileIO.write(self, mv[:part])
                fs.dead = True
                raise SimCrash()
            if k == "short" and n > 1:
                mv = mv[:max(1, min(n - 1, f.get("n_bytes", 1)))]
        if fs.ctx.client() in fs.full:
            raise OSError(errno.ENOSPC, "simulated full disk", self._name)
        if fs.dead:
            # buffers of a dead process never reach the disk
            return n
        return io.FileIO.write(self, mv)

    def close(self):
        if self.closed:
            return
        f = None
        try:
            if not self._fs.dead:
                f = self._fs.step(self._name, "close")
        finally:
            io.FileIO.close(self)
            if self._counted:
                self._counted = False
                self._fs.open_files -= 1
        if f and f["kind"] == "EIO":
            raise OSError(errno.EIO, "simulated error on close", self._name)


class SimFS:
    def __init__(self, ctx, root):
        self.ctx, self.root = ctx, os.path.realpath(root)
        self.faults = {}          # client -> active list of dict(file, op, at, kind)
        self.open_files = 0
        self.full = set()         # clients for which the disk is full
        self.dead = False
        self.read_chunk = 0
        self.buffer = 0
        self.fired = {}

    def arm(self, faults):
        """faults hit operations of the calling client only"""
        me = self.ctx.client()
        self.faults[me] = [dict(f) for f in faults]
        self.full.discard(me)
        self.fired[me] = []

    def disarm(self):
        me = self.ctx.client()
        self.faults.pop(me, None)
        self.full.discard(me)
        return self.fired.pop(me, [])

    def step(self, name, op):
        """one raw disk operation: maybe switch clients, maybe fail"""
        self.ctx.io_ops[op] = self.ctx.io_ops.get(op, 0) + 1
        self.ctx.sched_point("io")
        me = self.ctx.client()
        for f in self.faults.get(me, ()):
            if f["op"] != op or not fnmatch.fnmatch(name, f.get("file", "*")):
                continue
            c = f["seen"] = f.get("seen", -1) + 1
            if c == f["at"]:
                self.fired[me].append(f["kind"] + "@" + op)
                self.ctx.fault_fired(f["kind"] + "@" + op)
                return f
        return None

    def inside(self, file):
        try:
            p = os.path.realpath(os.fspath(file))
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p if p.startswith(self.root + os.sep) else None

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
        p = None if isinstance(file, int) or opener else self.inside(file)
        if p is None:
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        m = set(mode)
        if self.dead:
            raise SimCrash()
        f = self.step(os.path.basename(p), "open")
        if f:
            code = getattr(errno, f["kind"], errno.EIO)
            raise OSError(code, "simulated " + f["kind"], os.path.basename(p))
        binary = "b" in m
        rawmode = "".join(c for c in "rwxa+" if c in m)
        raw = SimRaw(self, p, rawmode)
        try:
            if buffering == 0:
                if not binary:
                    raise ValueError("can't have unbuffered text I/O")
                return raw
            bs = self.buffer or io.DEFAULT_BUFFER_SIZE
            if "+" in m:
                buf = io.BufferedRandom(raw, bs)
            elif "r" in m:
                buf = io.BufferedReader(raw, bs)
            else:
                buf = io.BufferedWriter(raw, bs)
            if binary:
                return buf
            t = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, buffering == 1)
            t.mode = mode
            return t
        except BaseException:
            raw.close()
            raise

    def install(self):
        builtins.open = self.open
        io.open = self.open

    def remove(self):
        builtins.open = _real_open
        io.open = _real_io_open


# --------------------------------------------------------------------------
# scheduler over client threads
# --------------------------------------------------------------------------
class Sched:
    """Real threads, exactly one of which holds the baton.  Which one runs, and for
    how many yield points, is read from the plan's schedule: [[client, quantum], ...].
    Behind its end clients run to completion in order."""

    def __init__(self, ctx, schedule):
        self.ctx, self.schedule = ctx, list(schedule)
        self.pos, self.left = 0, 0
        self.cur = None
        self.locks, self.alive, self.order = [], [], []
        self.done = threading.Semaphore(0)
        self.error = None
        self.switches = 0
        self.meetings = 0
        self.running = False
        self.trace_id = hashlib.sha256()

    def run(self, clients):
        """clients: list of callables"""
        n = len(clients)
        self.locks = [threading.Semaphore(0) for _ in range(n)]
        self.alive = [True] * n
        self.waiting = [False] * n

        def body(i):
            self.locks[i].acquire()
            try:
                self.ctx.trace_on()
                clients[i]()
            except BaseException as e:
                if self.error is None:
                    self.error = e
            finally:
                sys.settrace(None)
                self.alive[i] = False
                self.waiting[i] = False
                self._handover(final=True)

        ths = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        for t in ths:
            t.start()
        self.running = True
        self._pick()
        self.locks[self.cur].release()
        self.done.acquire()
        self.running = False
        for t in ths:
            t.join()
        if self.error is not None:
            raise self.error

    def _pick(self):
        alive = [i for i, a in enumerate(self.alive) if a and not self.waiting[i]]
        if not alive and any(self.waiting):
            # everybody is there: go on together, at another place of the schedule
            self.waiting = [False] * len(self.alive)
            alive = [i for i, a in enumerate(self.alive) if a]
            self.meetings += 1
            if self.schedule:
                self.pos = self.meetings * 53 % len(self.schedule)
        if not alive:
            return None
        if self.error is not None:
            # drain: let everyone run to its end one after the other
            self.cur, self.left = alive[0], 1 << 60
            return self.cur
        if self.pos < len(self.schedule):
            c, q = self.schedule[self.pos]
            self.pos += 1
            c = c % len(self.alive)
            if c not in alive:
                c = alive[c % len(alive)]
            self.cur, self.left = c, max(1, q)
        else:
            self.cur, self.left = alive[0], 1 << 60
        return self.cur

    def _handover(self, final=False):
        me = self.cur
        nxt = self._pick()
        if nxt is None:
            self.done.release()
            return
        if nxt == me and not final:
            return
        self.switches += 1
        self.trace_id.update(b"%d>%d@%d;" % (me, nxt, self.ctx.steps))
        self.locks[nxt].release()
        if not final:
            self.locks[me].acquire()

    def meet(self):
        """wait until every client that is still there waits as well"""
        if self.running:
            self.waiting[self.cur] = True
            self._handover()

    def point(self):
        if not self.running:
            return
        self.left -= 1
        if self.left <= 0:
            self._handover()


# --------------------------------------------------------------------------
# the run
# --------------------------------------------------------------------------
class Ctx:
    MAX_STEPS = 30_000_000

    def __init__(self, plan, pkgdir, root, alloc, known=()):
        self.plan, self.pkgdir, self.root = plan, os.path.realpath(pkgdir), root
        self.alloc = alloc
        self.fs = SimFS(self, root)
        self.sched = None
        self.log = hashlib.sha256()
        self.log_lines = [] if plan.get("keep_log") else None
        self.steps = 0              # simulated time: one tick per traced line or raw I/O
        self.ticks_io = 0
        self.io_ops = {}
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.known = list(known)
        self.known_hit = {}
        self.ops_done = 0
        self.nontrivial = False
        self.clock = 1_700_000_000.0
        self._ints = {}
        self.interrupts = 0
        self.trace_enabled = plan.get("trace", True)
        self._pkgprefix = os.path.join(self.pkgdir, "pyscal") + os.sep

    # -- log and measures ---------------------------------------------------
    def event(self, *what):
        line = json.dumps(what, sort_keys=True, default=_jsonable)
        self.log.update(line.encode() + b"\n")
        if self.log_lines is not None:
            self.log_lines.append(line)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *key):
        self.states.add(hashlib.sha256(repr(key).encode()).hexdigest()[:16])

    def fault_fired(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    # -- verdicts -----------------------------------------------------------
    def fail(self, kind, detail=""):
        """report a violation; known findings are counted and the run goes on"""
        for k in self.known:
            if k["property"] == self.plan["property"] and k["kind"] == kind and \
                    all(s in str(detail) for s in k.get("match", [])):
                self.known_hit[k["id"]] = self.known_hit.get(k["id"], 0) + 1
                return
        self.event("VIOLATION", kind, str(detail)[:400])
        raise Violation(kind, detail)

    def check(self, cond, kind, detail=""):
        if not cond:
            self.fail(kind, detail() if callable(detail) else detail)

    # -- calling the code under test -----------------------------------------
    def call(self, fn, *a, **kw):
        """-> (True, value) or (False, exception); the result of the real code"""
        self.ops_done += 1
        try:
            return True, fn(*a, **kw)
        except (Violation, HarnessError, SimCrash, StepLimit):
            raise
        except (Exception, KeyboardInterrupt) as e:
            return False, e

    def must(self, what, fn, *a, **kw):
        ok, v = self.call(fn, *a, **kw)
        if not ok:
            self.fail("unexpected-error", "%s raised %s: %s" % (what, type(v).__name__, str(v)[:200]))
            raise Violation("unexpected-error", what)
        return v

    def judging(self):
        return _Judging(self)

    # -- scheduling ---------------------------------------------------------
    def client(self):
        s = self.sched
        return s.cur if s is not None and s.running else -1

    def sched_point(self, why="line"):
        self.steps += 1
        if self.sched is not None:
            self.sched.point()

    def _local(self, frame, event, arg):
        if event == "line":
            self.steps += 1
            if self.steps > self.MAX_STEPS:
                raise StepLimit()
            if self._ints:
                t = threading.get_ident()
                n = self._ints.get(t)
                if n is not None and n > 1:
                    self._ints[t] = n - 1
                elif n is not None:
                    del self._ints[t]
                    self.interrupts += 1
                    self.fault_fired("interrupt")
                    raise KeyboardInterrupt("simulated")
            s = self.sched
            if s is not None and s.running:
                s.left -= 1
                if s.left <= 0:
                    s._handover()
        return self._local

    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self._pkgprefix):
            return self._local
        return None

    def trace_on(self):
        if self.trace_enabled:
            sys.settrace(self._global)

    def interrupt_after(self, nlines):
        """KeyboardInterrupt at the nlines-th line of the package executed from now on
        by this thread"""
        self._ints[threading.get_ident()] = nlines
        sys.settrace(self._global)

    def interrupt_off(self):
        pending = self._ints.pop(threading.get_ident(), None) is not None
        if self.trace_enabled:
            sys.settrace(self._global)
        else:
            sys.settrace(None)
        return not pending

    def lines_of(self, fn):
        """-> (outcome of fn, number of lines of the package it executed)"""
        many = 1 << 60
        t = threading.get_ident()
        self.interrupt_after(many)
        try:
            out = self.call(fn)
        finally:
            n = many - self._ints.get(t, many)
            self.interrupt_off()
        return out, n

    def clients(self, fns, schedule):
        self.sched = Sched(self, schedule)
        try:
            self.sched.run(fns)
        finally:
            s, self.sched = self.sched, None
            self.probe("context_switches", s.switches)
            self.state("interleaving", s.trace_id.hexdigest())
            self.event("schedule", s.switches, s.trace_id.hexdigest())

    def meet(self):
        if self.sched is not None:
            self.sched.meet()

    # -- environment ----------------------------------------------------------
    def install(self):
        seed = self.plan["seed"]
        import numpy as np
        random.seed(seed)
        np.random.seed(seed & 0xffffffff)
        ids = random.Random(seed ^ 0x5eed)
        uuid.uuid4 = lambda: uuid.UUID(int=ids.getrandbits(128), version=4)

        def simtime():
            self.clock += 1e-3
            return self.clock
        time.time = simtime
        self.alloc.fill(self.plan.get("fill", 1))
        self.fs.read_chunk = self.plan.get("read_chunk", 0)
        self.fs.buffer = self.plan.get("buffer", 0)
        self.fs.install()

    def result(self):
        return dict(digest=self.log.hexdigest(), steps=self.steps, faults=self.faults,
                    probes=self.probes, io=self.io_ops, states=sorted(self.states),
                    ops=self.ops_done, nontrivial=bool(self.nontrivial),
                    known=self.known_hit, log=self.log_lines)


class _Judging:
    """results that cannot even be interpreted are violations, not harness errors"""
    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None or not issubclass(et, Exception) or issubclass(et, (Violation, HarnessError)):
            return False
        import traceback
        where = traceback.extract_tb(tb)[-1]
        raise Violation("malformed-result", "%s: %s (%s:%d)" % (et.__name__, str(ev)[:200],
                                                              os.path.basename(where.filename), where.lineno))


def _jsonable(x):
    import numpy as np
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (set, frozenset)):
        return sorted(x)
    return repr(x)
