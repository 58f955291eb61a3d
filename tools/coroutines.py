"""Coroutines: generators, asynchronous generators, tasks and the time queue."""
from vk import *

CORO = ["--param", "asan-use-after-return=0"]      # its stack frames are never given back by coroutines


def C30(c):
    exes = parallel(*[(lambda t=t: build("generator", flags=[f"-DTYPE={t}", *CORO])) for t in range(4)])

    def run(t, exe):
        poke = int(t == 0)
        c.sweep(exe, "GeneratorMC", q([dict(NS=2, MaxN=2, MaxM=1, Poke=0), dict(NS=2, MaxN=1, MaxM=1, Poke=1)] if t == 0 else [dict(NS=2, MaxN=1, MaxM=1, Poke=0)],
                                      [dict(NS=2, MaxN=2, MaxM=2, Poke=poke)]))
        big = dict(NS=4, MaxN=6, MaxM=3, Poke=poke)
        c.record(exe, q(6000, 40000), "GeneratorTrace", big, episode=200, env=params(big))
    parallel(*[(lambda t=t: run(t, exes[t])) for t in range(4)])


def _co(n, p, u, g, v, vals=1):
    return dict(N=n, KP=p, KU=u, KG=g, KV=v, V=vals)


def C31(c):
    exe = build("coro", flags=CORO)
    parallel(lambda: c.sweep(exe, "CoroMC", q([_co(3, 1, 0, 2, 0), _co(2, 1, 1, 2, 1, 2)],
                                              [_co(3, 1, 0, 2, 0, 2), _co(3, 0, 1, 2, 0, 2), _co(3, 0, 0, 2, 1, 2), _co(3, 1, 1, 2, 1)]), timeout=1800),
             lambda: c.simulate(exe, "CoroSim", _co(3, 1, 0, 2, 0, 2), q(300, 5000), 60),
             lambda: c.simulate(exe, "CoroSim", _co(6, 2, 1, 4, 1, 3), q(150, 5000), 100, timeout=1800))


def C32(c):
    exe = build("coro", flags=CORO)
    parallel(lambda: c.sweep(exe, "CoroMC", [_co(2, 2, 2, 0, 2, 2)]),
             lambda: c.sweep(exe, "CoroMC", q([_co(3, 3, 0, 0, 0), _co(3, 0, 3, 0, 0)],
                                              [_co(3, 2, 1, 0, 0, 2), _co(3, 1, 2, 0, 0, 2), _co(3, 1, 1, 0, 1, 2), _co(3, 3, 0, 0, 0, 2), _co(3, 1, 1, 1, 1)]),
                             limit=q(40000, None), timeout=1800),
             lambda: c.simulate(exe, "CoroSim", _co(3, 2, 2, 0, 1, 2), q(600, 5000), 60),
             lambda: c.simulate(exe, "CoroSim", _co(6, 3, 3, 1, 2, 3), q(150, 5000), 100, timeout=1800))


def C33(c):
    exe = build("time_queue", flags=CORO)
    c.model("TimeQueueMC", dict(SPECIFICATION="MCSpec", CONSTANTS=q(dict(N=3, T=3), dict(N=4, T=4)), INVARIANT=["Inv", "Once", "Served"],
                                PROPERTY="Ordered", CHECK_DEADLOCK="FALSE"), workers=8)
    c.record(exe, q(60000, 600000), "TimeQueueTrace")
