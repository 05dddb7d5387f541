"""Seeded cooperative scheduler: N ranks as threads, one runs at a time."""

import hashlib
import random
import sys
import threading
import traceback


class SimAbort(BaseException):
    """Raised inside ranks to unwind them when a run is over (crash, hang)."""


class Violation(Exception):
    """A property is violated (not an error of the harness)."""

    def __init__(self, kind, message, where=''):
        super().__init__(message)
        self.kind = kind
        self.message = message
        self.where = where


class HarnessError(Exception):
    """Something the simulator does not support (never a violation)."""


class Rank:
    def __init__(self, kernel, index):
        self.kernel = kernel
        self.index = index
        self.sem = threading.Semaphore(0)
        self.state = 'ready'    # ready, blocked, done
        self.waiting = None     # description of what the rank is blocked in
        self.outcome = None     # ('ok', value), ('exit', code), ('exc', e, tb)
        self.on_resume = None   # called when the rank gets the baton
        self.thread = None
        self.wake_epoch = 0


class Policy:
    """Chooses among runnable ranks."""

    def __init__(self, kind, rng, n, horizon=2000):
        self.kind = kind
        self.rng = rng
        self.n = n
        self.step = 0

        if kind == 'prio':
            self.prio = list(range(n))
            rng.shuffle(self.prio)
            self.changes = sorted(rng.randrange(1, horizon)
                for _ in range(rng.randrange(0, 6)))
            self.low = -1
        elif kind == 'stall':
            k = rng.randrange(1, max(2, n))
            self.victims = set(rng.sample(range(n), min(k, n)))
            if rng.random() < 0.4:
                self.victims = {rng.randrange(n)}
            self.start = rng.choice([0, 0, rng.randrange(0, 200)])
            self.stop = self.start + rng.choice([10, 50, 10 ** 9])
        elif kind == 'random':
            self.p = rng.choice([1.0, 1.0, 0.5, 0.1])

    def choose(self, runnable, current):
        self.step += 1

        if self.kind == 'seq':
            return current if current in runnable else runnable[0]

        if self.kind == 'rr':
            later = [r for r in runnable if r > current]
            return later[0] if later else runnable[0]

        if self.kind == 'prio':
            while self.changes and self.step >= self.changes[0]:
                self.changes.pop(0)
                if current in runnable:
                    self.prio[current] = self.low
                    self.low -= 1
            return max(runnable, key=lambda r: self.prio[r])

        if self.kind == 'stall':
            if self.start <= self.step < self.stop:
                free = [r for r in runnable if r not in self.victims]
                runnable = free or runnable
            return self.rng.choice(runnable)

        if current in runnable and self.rng.random() > self.p:
            return current
        return self.rng.choice(runnable)


class Replay:
    """Default order (stay, else lowest) with explicit deviations."""

    kind = 'replay'

    def __init__(self, deviations):
        self.deviations = {int(k): v for k, v in deviations.items()}
        self.step = 0

    def choose(self, runnable, current):
        step = self.step
        self.step += 1
        choice = self.deviations.get(step)
        if choice is not None and choice in runnable:
            return choice
        return current if current in runnable else runnable[0]


class Kernel:
    def __init__(self, n, policy, preempt=None, timeout=60.0):
        self.n = n
        self.policy = policy
        self.ranks = [Rank(self, i) for i in range(n)]
        self.current = None
        self.finished = threading.Event()
        self.aborting = None
        self.violation = None
        self.decisions = 0
        self.deviations = {}
        self.switches = 0
        self.events = 0
        self.lines = 0
        self.hash = hashlib.blake2b(digest_size=16)
        self.preempt_rng = preempt      # random.Random or None
        self.preempt_mean = 0
        self.countdown = -1
        self.timeout = timeout
        self.log = None                 # optional readable trace
        self.on_event = None            # fault hook: f(rank, label)

    # ------------------------------------------------------------- scheduling

    def runnable(self):
        return [r.index for r in self.ranks if r.state == 'ready']

    def _pick(self):
        options = self.runnable()

        if not options:
            return None

        cur = self.current.index if self.current is not None else -1

        if len(options) == 1:
            choice = options[0]
        else:
            choice = self.policy.choose(options, cur)
            default = cur if cur in options else options[0]
            if choice != default:
                self.deviations[self.decisions] = choice
            self.decisions += 1

        return self.ranks[choice]

    def _note(self, rank, label):
        self.events += 1
        self.hash.update(b'%d:%s;' % (rank.index, label.encode()))
        if self.log is not None:
            self.log.append((rank.index, label))

    def _hand_over(self, me, nxt):
        """Pass baton from rank `me` to rank `nxt` and wait for it."""
        if nxt is me:
            return
        self.switches += 1
        self.current = nxt
        nxt.sem.release()
        me.sem.acquire()
        self.current = me
        if me.on_resume is not None:
            me.on_resume()

    def check_abort(self):
        if self.aborting is not None:
            raise SimAbort(self.aborting)

    def yield_point(self, label):
        """Possible hand-over to another rank."""
        me = self.current
        self.check_abort()
        self._note(me, label)
        if self.on_event is not None:
            self.on_event(me, label)
            self.check_abort()
        nxt = self._pick()
        if nxt is not me:
            self._hand_over(me, nxt)
        self.check_abort()

    def block(self, ready, what):
        """Block current rank until ready() is true."""
        me = self.current
        self.check_abort()
        while not ready():
            me.state = 'blocked'
            me.waiting = what
            nxt = self._pick()
            if nxt is None:
                me.state = 'ready'
                self.deadlock(me, what)
            self._hand_over(me, nxt)
            self.check_abort()
        me.waiting = None

    def wake(self, index):
        r = self.ranks[index]
        if r.state == 'blocked':
            r.state = 'ready'

    def deadlock(self, me, what):
        lines = []
        for r in self.ranks:
            if r is me:
                lines.append('rank %d waits in %s' % (r.index, what))
            elif r.state == 'blocked':
                lines.append('rank %d waits in %s' % (r.index, r.waiting))
            elif r.state == 'done':
                lines.append('rank %d has ended (%s)'
                    % (r.index, describe(r.outcome)))
        self.fail(Violation('deadlock', 'no process can continue: '
            + '; '.join(lines)))
        raise SimAbort('deadlock')

    def fail(self, violation):
        """Record violation and unwind all ranks."""
        if self.violation is None:
            self.violation = violation
        self.abort('violation')

    def abort(self, reason):
        if self.aborting is None:
            self.aborting = reason
        for r in self.ranks:
            if r.state == 'blocked':
                r.state = 'ready'

    # ---------------------------------------------------- line-level preemption

    def arm(self):
        if self.preempt_rng is not None and self.preempt_mean:
            self.countdown = 1 + int(
                self.preempt_rng.expovariate(1.0 / self.preempt_mean))
        else:
            self.countdown = -1

    def line_tick(self):
        self.lines += 1
        if self.countdown > 0:
            self.countdown -= 1
            if self.countdown == 0:
                self.arm()
                if self.aborting is None and self.current is not None \
                        and threading.current_thread() is self.current.thread:
                    self.yield_point('line')

    # -------------------------------------------------------------------- run

    def _body(self, rank, fn):
        rank.sem.acquire()
        self.current = rank
        if rank.on_resume is not None:
            rank.on_resume()
        try:
            if self.aborting is not None:
                raise SimAbort(self.aborting)
            rank.outcome = ('ok', fn(rank))
        except SimAbort as e:
            rank.outcome = ('aborted', str(e))
        except SystemExit as e:
            rank.outcome = ('exit', e.code)
        except BaseException as e:
            rank.outcome = ('exc', e, short_tb(e))
        finally:
            rank.state = 'done'
            self._note(rank, 'end')
            nxt = self._pick()
            if nxt is None:
                left = [r for r in self.ranks if r.state != 'done']
                if left:
                    if self.violation is None and self.aborting is None:
                        self.fail(Violation('deadlock', 'no process can '
                            'continue: ' + '; '.join(
                                'rank %d waits in %s' % (r.index, r.waiting)
                                if r.state == 'blocked' else
                                'rank %d has ended (%s)'
                                % (r.index, describe(r.outcome))
                                for r in self.ranks)))
                    nxt = self._pick()
                if nxt is None:
                    self.current = None
                    self.finished.set()
            if nxt is not None:
                self.current = nxt
                nxt.sem.release()

    def run(self, fn):
        threading.stack_size(16 * 1024 * 1024)
        for rank in self.ranks:
            rank.thread = threading.Thread(target=self._body, args=(rank, fn),
                daemon=True)
            rank.thread.start()

        self.arm()
        self.current = None
        first = self._pick()
        self.current = first
        first.sem.release()

        if not self.finished.wait(self.timeout):
            cur = self.current
            self.fail(Violation('hang', 'rank %s makes no progress within '
                '%g s of computing' % (cur.index if cur else '?',
                self.timeout)))
            import ctypes
            for _ in range(50):
                cur = self.current
                if cur is not None and cur.thread is not None:
                    ctypes.pythonapi.PyThreadState_SetAsyncExc(
                        ctypes.c_ulong(cur.thread.ident),
                        ctypes.py_object(SimAbort))
                if self.finished.wait(1.0):
                    break
        for rank in self.ranks:
            rank.thread.join(5.0)

    @property
    def digest(self):
        return self.hash.hexdigest()


def describe(outcome):
    if outcome is None:
        return 'running'
    if outcome[0] == 'exc':
        return '%s: %s' % (type(outcome[1]).__name__, outcome[1])
    if outcome[0] == 'exit':
        return 'exit'
    return outcome[0]


def short_tb(e):
    """File:line in elphmod where an exception came from."""
    frames = traceback.extract_tb(e.__traceback__)
    inner = [f for f in frames if '/elphmod/' in f.filename]
    pick = inner[-1:] or frames[-1:]
    return ', '.join('%s:%d %s' % (f.filename.split('/elphmod/')[-1], f.lineno,
        f.name) for f in pick)


def caller():
    """Innermost elphmod source position of current thread."""
    f = sys._getframe(1)
    while f is not None:
        name = f.f_code.co_filename
        if '/elphmod/' in name:
            return '%s:%d' % (name.split('/elphmod/')[-1], f.f_lineno)
        f = f.f_back
    return 'scenario'
