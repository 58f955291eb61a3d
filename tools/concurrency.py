"""Concurrent parts: schedules are explored by harness/interleave.cpp, the recorded histories are validated by TLC."""
import concurrent.futures as cf
import re
from vk import *

JT = f"-I{REPO}/Extras/JThread/JThreadExtras"


def build_conc(name, flags=()):
    return build(name, [(f"{HARN}/{name}.cpp", ["-fsanitize=thread", "-fno-inline-functions-called-once", *flags]), f"{HARN}/interleave.cpp"], san=False, link=["-ldl"])


def explore(c, exe, module, programs, schedules, dfs, params=(), what=None, parts=8, invariants=("Inv",), constants=None, env=None):
    """Programs are split over processes; the histories of each process are validated separately."""
    what = what or f"schedules of {module}"

    def part(k):
        f = c.path(f"{module}{''.join(str(p) for p in params)}.{k}.ndjson")
        out = c.harness([exe, SEED * 1000 + k, programs, schedules, dfs, f, *params], what, timeout=q(300, 1500), env=env)
        if out is None:
            return
        m = re.search(r"OK runs=(\d+) distinct=(\d+) events=(\d+) complete=(\d+)", out)
        if not m:
            raise MachineryError(f"{what}: {out[-500:]}")
        c.add("schedules", int(m[1]))
        c.add("distinct_histories", int(m[2]))
        c.add("programs", programs)
        c.add("programs_explored_completely_within_the_preemption_bound", int(m[4]))
        c.validate(module, f, constants, what, invariants=invariants, hidden=True)
        os.remove(f)
    with cf.ThreadPoolExecutor(parts) as ex:
        list(ex.map(part, range(parts)))


def C20(c):
    exe = build_conc("conc_queue")
    c.model("UpdateQueueMC", dict(SPECIFICATION="MSpec", CHECK_DEADLOCK="FALSE", INVARIANT=["MInv"], CONSTANTS=dict(NT=2, NU=q(2, 3), MaxA=2)), workers=8)
    explore(c, exe, "UpdateQueueTrace", q(12, 60), q(150, 800), q(250, 4000))


def C21(c):
    exe = build_conc("conc_stop", ["-std=gnu++17", JT])
    h = build("stop_handles", flags=["-std=gnu++17", JT])
    c.sweep(h, "StopHandlesMC", [dict(NS=2, NT=1), dict(NS=1, NT=2)] + q([], [dict(NS=2, NT=2)]))
    big = dict(NS=4, NT=4)
    c.record(h, q(5000, 50000), "StopHandlesTrace", big, episode=300, env=params(big))
    explore(c, exe, "StopTokenTrace", q(16, 80), q(150, 800), q(250, 4000))


def C22(c):
    exe = build_conc("conc_cv", ["-std=gnu++17", JT])
    explore(c, exe, "CondVarTrace", q(16, 80), q(150, 800), q(250, 4000))


JTE = ["-std=gnu++17", "-DAWL_JTHREAD_EXTRAS", f"-I{REPO}/Extras/JThread"]


def C24(c):
    exe = build_conc("conc_sleep")
    exe2 = build_conc("conc_sleep", JTE)
    for e in (exe, exe2):
        explore(c, e, "SleepTrace", q(10, 60), q(120, 600), q(150, 3000))


def C25(c):
    exe = build_conc("conc_watchdog")
    exe2 = build_conc("conc_watchdog", JTE)
    for e in (exe, exe2):
        explore(c, e, "WatchDogTrace", q(12, 60), q(120, 600), q(150, 3000))


def C23(c):
    exe = build_conc("conc_jthread", ["-std=gnu++17", JT])
    explore(c, exe, "JThreadTrace", q(20, 100), q(150, 800), q(200, 4000))
