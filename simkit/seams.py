"""
Seams: every source of nondeterminism the code under test sees, put under the plan's control.

* clock            time.time, datetime.now as seen by the workflow engine (jumps, stalls, backwards steps)
* identifiers      uuid.uuid1 / uuid.uuid4
* randomness       random.*, numpy.random.*, generators seeded by the operating system
* memory layout    hash of identity-hashed library objects, hence iteration order of sets of them
* system calls     psutil memory probe (may fail), open()/io.open() on the scratch disk (see disk.py)
* process restart  all in-process caches of the library dropped
No hook in /repo is needed: the seams are module attributes and the documented python protocol methods.
"""
import builtins
import datetime as real_datetime
import io
import os
import random
import time
import uuid

REAL = {}
_STATE = {}


class SimClock:
    """ Simulated wall clock. Each reading advances by a step from the plan (possibly zero or negative). """

    def __init__(self, config):
        self.now = float(config.get("start", 1.6e9))
        self.steps = config.get("steps") or [0.01]
        self.reads = 0
        self.elapsed = 0.0
        self.jumps = 0

    def time(self):
        step = self.steps[self.reads % len(self.steps)]
        self.reads += 1
        self.now += step
        self.elapsed += abs(step)
        if step < 0 or step > 100:
            self.jumps += 1
        return self.now


class _DatetimeShim:
    """ Stands for the `datetime` module inside dessia_common.workflow.core. """

    class datetime(real_datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            clock = _STATE.get("clock")
            stamp = clock.time() if clock else REAL["time"]()
            return real_datetime.datetime.fromtimestamp(max(0.0, min(stamp, 4e10)), tz)

    def __getattr__(self, name):
        return getattr(real_datetime, name)


class _Process:
    """ Memory probe stub: deterministic figures, may fail like a real system call. """

    def __init__(self, *args, **kwargs):
        pass

    def memory_info(self):
        state = _STATE
        state["psutil_calls"] = state.get("psutil_calls", 0) + 1
        if state["psutil_calls"] in state.get("psutil_fail", ()):
            state["ctx"].fault("memory-probe-fails")
            raise OSError(5, "simulated failure reading /proc")

        class Info:
            vms = 10 ** 8 + 4096 * state["psutil_calls"]
            rss = vms
        return Info()


def install():
    """ Import the code under test and put the seams in place (inactive until reset). """
    import psutil
    import sys
    import types
    import numpy
    sys.modules.setdefault("imp", types.ModuleType("imp"))  # pyDOE2 imports it and does not use it; gone since 3.12
    from simkit import engine, sched
    sched.install_locks(engine.REPO + os.sep)
    import dessia_common.core  # noqa
    import dessia_common.workflow.core as wfcore
    import dessia_common.workflow.blocks  # noqa
    from dessia_common.core import DessiaObject

    REAL.update(time=time.time, uuid1=uuid.uuid1, uuid4=uuid.uuid4, process=psutil.Process, open=builtins.open,
                ioopen=io.open, hash=DessiaObject.__hash__)

    def sim_time():
        clock = _STATE.get("clock")
        return clock.time() if clock else REAL["time"]()

    def sim_uuid(*args, **kwargs):
        rng = _STATE.get("uuid_rng")
        if rng is None:
            return REAL["uuid4"]()
        return uuid.UUID(int=rng.getrandbits(128), version=4)

    time.time = sim_time
    uuid.uuid1 = sim_uuid
    uuid.uuid4 = sim_uuid
    psutil.Process = _Process
    for module in (wfcore,):
        if hasattr(module, "datetime"):
            module.datetime = _DatetimeShim()

    real_hash = REAL["hash"]

    def sim_hash(self):
        if type(self)._eq_is_data_eq and self._eq_is_data_eq:
            return real_hash(self)
        table = _STATE.get("hash_table")
        if table is None:
            return real_hash(self)
        entry = table.get(id(self))
        if entry is None:
            entry = table[id(self)] = (_STATE["hash_rng"].getrandbits(40), self)
        return entry[0]

    DessiaObject.__hash__ = sim_hash


def seed_generators():
    """ Generators without a seed take it from the operating system: from the plan instead. """
    import numpy
    if "seed" in REAL:
        return
    REAL["seed"], REAL["state"] = numpy.random.seed, numpy.random.RandomState

    def entropy():
        rng = _STATE.get("entropy_rng")
        return rng.getrandbits(32) if rng is not None else None

    def sim_seed(seed=None):
        REAL["seed"](entropy() if seed is None else seed)

    class SimRandomState(REAL["state"]):
        def __init__(self, seed=None):
            super().__init__(entropy() if seed is None else seed)
    numpy.random.seed = sim_seed
    numpy.random.RandomState = SimRandomState


def reset(config, ctx):
    """ Start of a run: fresh simulated world from the plan's seam configuration. """
    import numpy
    _STATE.clear()
    seed_generators()
    _STATE["ctx"] = ctx
    _STATE["clock"] = SimClock(config.get("clock", {}))
    seed = config.get("seed", 0)
    _STATE["uuid_rng"] = random.Random(seed ^ 0x5EED)
    _STATE["hash_rng"] = random.Random(config.get("layout", seed) ^ 0xA5A5)
    _STATE["hash_table"] = {}
    _STATE["entropy_rng"] = random.Random(seed ^ 0xE27)
    _STATE["psutil_fail"] = set(config.get("psutil_fail", ()))
    random.seed(seed ^ 0x77)
    numpy.random.seed((seed ^ 0x99) & 0xFFFFFFFF)


def restore():
    ctx, clock = _STATE.get("ctx"), _STATE.get("clock")
    if ctx is not None and clock is not None:
        ctx.simtime += clock.elapsed
        if clock.jumps:
            ctx.faults["clock-jump"] = ctx.faults.get("clock-jump", 0) + clock.jumps
    _STATE.clear()
    builtins.open = REAL.get("open", builtins.open)
    io.open = REAL.get("ioopen", io.open)


def gen_seam(rng, psutil_faults=False):
    """ Draw a seam configuration. """
    style = rng.choice(["steady", "frozen", "jumpy", "backwards"])
    steps = {"steady": [0.01], "frozen": [0.0],
             "jumpy": [rng.choice([0.001, 5.0, 3600.0, 1e6]) for _ in range(6)],
             "backwards": [rng.choice([0.01, -3600.0, 86400.0, -0.5]) for _ in range(6)]}[style]
    config = {"seed": rng.getrandbits(32), "clock": {"start": rng.choice([1.6e9, 0.5e9, 1.7e9 + 0.25]), "steps": steps}}
    if psutil_faults and rng.random() < 0.25:
        config["psutil_fail"] = sorted(rng.sample(range(1, 24), rng.randint(1, 2)))
    return config


