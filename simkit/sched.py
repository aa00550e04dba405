"""
Deterministic thread scheduler.

Tasks are real threads, but only the one holding the baton runs.  Every line (or every bytecode
instruction, when asked) executed inside the traced code is a preemption point; the plan's schedule [[task, quantum], ...] says who runs and for how many lines before the next
decision, so one plan is one exactly repeatable interleaving.  Locks created by the code under test are replaced by
scheduler-aware ones, so a task blocked on a lock hands the baton over.
"""
import sys
import threading

CURRENT = None
_REAL_LOCK = threading.Lock
_REAL_RLOCK = threading.RLock


class SimLock:
    """ Lock (reentrant or not) that gives the baton away instead of blocking the simulated world. """

    def __init__(self, reentrant=False):
        self.reentrant = reentrant
        self.owner = None
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        spins = 0
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking or timeout == 0:
                return False
            scheduler = CURRENT
            spins += 1
            if scheduler is None or not scheduler.mine() or spins > 100000:
                raise RuntimeError("simulated deadlock: lock held by a task that cannot run")
            scheduler.give_way()
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        if self.depth == 0:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *args):
        self.release()


def install_locks(prefix):
    """ Code under `prefix` gets scheduler-aware locks, everybody else the real ones. """
    def lock():
        return SimLock() if sys._getframe(1).f_code.co_filename.startswith(prefix) else _REAL_LOCK()

    def rlock():
        return SimLock(True) if sys._getframe(1).f_code.co_filename.startswith(prefix) else _REAL_RLOCK()
    threading.Lock, threading.RLock = lock, rlock


class Task:
    def __init__(self, number, body):
        self.number, self.body = number, body
        self.baton = threading.Semaphore(0)
        self.done = False
        self.result = self.error = None
        self.where = "start"
        self.lines = 0
        self.seen = None


class Scheduler:
    """ Runs bodies concurrently following the schedule; `run` returns their results or raises the first error. """

    def __init__(self, ctx, schedule, prefixes, opcodes=False, marks=None):
        """
        Quanta of the schedule are numbers of steps, ["inner", n] or ["mark", fraction].

        ["inner", n] lets the task run up to its n-th line of user code (called by blocks being evaluated).

        ["mark", fraction] lets the task run up to one of its marks: steps where it first or last is at some source line, known
        from a previous execution (see `survey`). Rare lines are then as likely preemption points as frequent ones.
        """
        self.marks = marks or []
        self.ctx, self.prefixes, self.opcodes = ctx, tuple(prefixes), opcodes
        self.schedule = [tuple(s) for s in schedule]
        self.position = 0
        self.left = 0
        self.tasks = []
        self.running = None
        self.over = threading.Semaphore(0)
        self.switches = 0
        self.surveying = False
        self.inner = None  # Number of lines of user code left, for quanta ["inner", n]

    def mine(self):
        return self.running is not None and threading.current_thread() is self.running.thread

    # ----------------------------------------------------------------------------------------------- decisions
    def decide(self):
        """ Next task to run and its quantum. """
        alive = [t for t in self.tasks if not t.done]
        if not alive:
            return None
        while self.position < len(self.schedule):
            number, quantum = self.schedule[self.position]
            self.position += 1
            task = self.tasks[number % len(self.tasks)]
            if not task.done:
                self.inner = None
                if isinstance(quantum, (list, tuple)) and quantum[0] == "inner":
                    self.inner, quantum = quantum[1], 10 ** 6
                elif isinstance(quantum, (list, tuple)):
                    marks = self.marks[task.number] if task.number < len(self.marks) else []
                    target = marks[min(int(quantum[1] * len(marks)), len(marks) - 1)] if marks else 100
                    quantum = max(1, target - task.lines)
                self.left = quantum
                return task
        self.left, self.inner = 1 << 60, None
        return self.running if self.running in alive else alive[0]

    def hand_over(self, task, frame=None):
        previous = self.running
        if task is previous:
            return
        self.switches += 1
        self.ctx.count("context-switches")
        self.ctx.ev("switch", previous.number if previous else None, previous.where if previous else None,
                    task.number if task else None, task.where if task else None)
        if previous is not None and task is not None:
            self.ctx.state("switch", *sorted([(previous.where), (task.where)]))
        self.running = task
        if task is None:
            self.over.release()
            return
        task.baton.release()

    def give_way(self):
        """ The running task cannot go on (blocked): let another one run. """
        me = self.running
        others = [t for t in self.tasks if not t.done and t is not me]
        if not others:
            raise RuntimeError("simulated deadlock: every other task is over")
        start = me.number
        task = sorted(others, key=lambda t: (t.number <= start, t.number))[0]
        self.left = 50
        self.hand_over(task)
        me.baton.acquire()

    # ----------------------------------------------------------------------------------------------- tracing
    def trace(self, frame, event, arg):
        if self.left > 10 ** 6 and self.position >= len(self.schedule) and not self.surveying:
            return None  # No preemption left in the schedule: go on at full speed
        if frame.f_code.co_filename.startswith(self.prefixes):
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line"):
            me = self.running
            me.lines += 1
            self.left -= 1
            if me.seen is not None:
                me.seen.setdefault((frame.f_code, frame.f_lineno), [me.lines, 0])[1] = me.lines
            if self.inner is not None and frame.f_code.co_filename.endswith("simkit/models.py"):
                self.inner -= 1
                if self.inner <= 0:
                    self.left = 0
            if self.left <= 0:
                me.where = f"{frame.f_code.co_name}:{frame.f_lineno}"
                task = self.decide()
                if task is not me:
                    self.hand_over(task)
                    me.baton.acquire()
        return self.local

    def main(self, task):
        task.baton.acquire()
        sys.settrace(self.trace)
        try:
            task.result = task.body()
        except BaseException as exc:  # noqa
            task.error = exc
        finally:
            sys.settrace(None)
        task.done = True
        task.where = "end"
        self.hand_over(self.decide())

    def run(self, bodies):
        global CURRENT
        self.tasks = [Task(i, body) for i, body in enumerate(bodies)]
        if self.surveying:
            for task in self.tasks:
                task.seen = {}
        for task in self.tasks:
            task.thread = threading.Thread(target=self.main, args=(task,), daemon=True)
            task.thread.start()
        CURRENT = self
        try:
            self.hand_over(self.decide())
            self.over.acquire()
        finally:
            CURRENT = None
        self.ctx.steps += sum(t.lines for t in self.tasks)
        self.ctx.ev("lines", [t.lines for t in self.tasks])
        for task in self.tasks:
            if task.error is not None:
                raise task.error
        return [t.result for t in self.tasks]


def survey(ctx, body, prefixes, opcodes=False):
    """ Run one body alone; returns its result and its marks. """
    scheduler = Scheduler(ctx, [], prefixes, opcodes)
    scheduler.surveying = True
    result = scheduler.run([body])[0]
    seen = scheduler.tasks[0].seen
    return result, sorted({step for pair in seen.values() for step in pair})


def gen_rendezvous(rng, tasks):
    """ Tasks are stopped inside user code while others run, possibly up to their end. """
    schedule = []
    for _ in range(rng.choice([1, 1, 2, 3, 5, 8, 20])):
        schedule.append([rng.randrange(tasks), ["inner", 1 + int(rng.expovariate(1 / rng.choice([2, 6, 20])))]])
        if rng.random() < 0.3:
            schedule.append([rng.randrange(tasks), int(10 ** rng.uniform(0, 3))])
    if rng.random() < 0.3:
        schedule.append([rng.randrange(tasks), 10 ** 7])
    return schedule


def gen_schedule(rng, tasks, tier="quick", marks=False):
    """ Random schedules of several styles: fine-grained, coarse, and few preemptions at random depths. """
    style = rng.choice(["fine", "mixed", "few", "few", "bursts"] + (["marks"] * 8 if marks else []))
    schedule = []
    if style == "marks" and rng.random() < 0.5:  # One task stops somewhere, another one runs to its end meanwhile
        first, second = rng.sample(range(tasks), 2)
        return [[first, ["mark", round(rng.random(), 4)]], [second, 10 ** 7]]
    if style == "marks":
        for _ in range(rng.choice([1, 2, 2, 3, 4, 8])):
            schedule.append([rng.randrange(tasks), ["mark", round(rng.random(), 4)]])
            if rng.random() < 0.3:
                schedule.append([rng.randrange(tasks), rng.choice([1, 3, 10, 100])])
        return schedule
    if style == "fine":
        mean = rng.choice([1, 2, 5, 12])
        for _ in range(rng.choice([60, 200, 600])):
            schedule.append([rng.randrange(tasks), 1 + int(rng.expovariate(1 / mean))])
    elif style == "mixed":
        for _ in range(rng.choice([10, 40, 120])):
            schedule.append([rng.randrange(tasks), int(10 ** rng.uniform(0, 3.2))])
    elif style == "few":
        for _ in range(rng.randint(1, 5)):
            schedule.append([rng.randrange(tasks), int(10 ** rng.uniform(0, 4))])
    else:
        for _ in range(rng.choice([10, 30])):
            schedule.append([rng.randrange(tasks), int(10 ** rng.uniform(1.5, 3))])
            for _ in range(rng.randint(0, 6)):
                schedule.append([rng.randrange(tasks), rng.randint(1, 4)])
    return schedule
