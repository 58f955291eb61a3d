"""Checks of the storage and serialization: C01 - C07."""
from vk import *
import vtsgen

WRAP = "open close read write lseek fsync fdatasync ftruncate fstat pread pwrite".split()
WRAPS = tuple("-Wl,--wrap=" + x for x in WRAP)


def storage_exe():
    return build("storage", [f"{HARN}/storage.cpp", *io_sources()], flags=["-U_FORTIFY_SOURCE"], link=WRAPS)


def storage(c, mode, block, levels, faultstep):
    exe = storage_exe()
    f = c.path(f"storage{mode}.{block}.ndjson")
    out = c.harness([exe, "explore", f, levels, faultstep, int(THOROUGH)], f"storage mode {mode}", timeout=600, env=dict(VK_PARAMS=f"{mode},{block}"))
    if out is None:
        return
    m = re.search(r"OK nodes=(\d+) images=(\d+) runs=(\d+)", out)
    for k, n in zip(("disk_contents", "crash_images", "processes_run"), m.groups()):
        c.add(k, int(n))
    c.validate("StorageTrace", f, None, f"storage mode {mode}: what loads yield after crashes and failures", invariants=())


def protocol(c):
    """The protocol of the storage at the level of file operations satisfies the contract."""
    k = q(dict(MaxSaves=2, MaxFaults=1, MaxCrashes=2, Blocks=2), dict(MaxSaves=3, MaxFaults=2, MaxCrashes=3, Blocks=2))
    c.model("StorageProtocol", dict(SPECIFICATION="Spec", INVARIANT=["Recoverable", "LoadsOk", "NeverMixed"], CHECK_DEADLOCK="FALSE", CONSTANTS=k),
            workers=2, timeout=800, quick_jit=not THOROUGH)


def C01(c):
    exe = storage_exe()

    def noload():
        out = c.harness([exe, "noload"], "a save without a load", env=dict(VK_PARAMS="1,40"))
        m = re.search(r"lost=(\d+)", out or "")
        if m and int(m[1]):
            e = known_findings("C01").get("save-without-load")
            if e:
                c.known_finding(f"save-without-load: {e['what']} ({m[1]} of the contents after the second crash are lost)")
            else:
                c.violation("a save without a load", dict(lost=int(m[1])))
    jobs = [lambda a=a: storage(c, *a) for a in q([(0, 40, 2, 0), (1, 64, 2, 0), (2, 110, 2, 0), (3, 40, 2, 0), (4, 65536, 2, 0)],
                                                  [(m, b, 3, 0) for m in range(6) for b in (24, 40, 65536)])]
    with cf.ThreadPoolExecutor(6) as ex:
        for f in [ex.submit(j) for j in [lambda: protocol(c), noload, *jobs]]:
            f.result()


def C02(c):
    exe = storage_exe()
    jobs = [lambda a=a: storage(c, *a) for a in q([(m, b, 1, 40) for m, b in [(0, 64), (1, 110), (2, 200), (3, 200), (4, 110), (5, 200)]],
                                                  [(m, b, 1, 4) for m in range(6) for b in (64, 200, 65536)])]
    with cf.ThreadPoolExecutor(6) as ex:
        for f in [ex.submit(j) for j in [lambda: protocol(c), *jobs]]:
            f.result()


def C05(c):
    exe = build("hash_stream")
    small = [dict(B=9, H=8, W=3, N=3, All=1), dict(B=11, H=8, W=9, N=7, All=1), dict(B=12, H=8, W=8, N=5, All=1), dict(B=1, H=0, W=4, N=4, All=1),
             dict(B=3, H=0, W=8, N=7, All=1)] + q([], [dict(B=10, H=8, W=9, N=9, All=1), dict(B=13, H=8, W=16, N=12, All=1), dict(B=5, H=0, W=16, N=12, All=1)])
    c.sweep(exe, "HashStreamMC", small)
    c.sweep(exe, "HashStreamMC", [dict(B=12, H=8, W=8, N=5, All=1)], env=dict(VK_STACK="1"))
    jobs = [(dict(B=b, H=h, W=w, N=n, All=0), st) for b, h, w, n, st in
            [(24, 8, 400, 100, 0), (24, 8, 400, 100, 1), (100, 8, 2000, 350, 1), (65536, 8, 400000, 200000, 0), (64, 0, 900, 300, 0), (65536, 0, 400000, 200000, 0)]]
    parallel(*[lambda k=k, st=st: c.record(exe, q(2500, 30000) // (1 if k["B"] < 1000 else 5), "HashStreamTrace", k, episode=60, env=dict(params(k), VK_STACK=str(st))) for k, st in jobs])


def C03(c):
    exe = build("load", [f"{HARN}/load.cpp", *io_sources()])

    def one(t):
        f = c.path(f"load{t}.ndjson")
        if c.harness([exe, "enumerate", f, SEED, int(THOROUGH)], f"loads of type {t}", timeout=600, env=dict(VK_PARAMS=str(t))) is not None:
            c.validate("LoadTrace", f, dict(Format='"fmt"', Version=5), f"loads of damaged files of type {t}", invariants=())

    def append():
        out = c.harness([exe, "append"], "data behind a full last block")
        m = re.search(r"changed=(\d+)", out or "")
        if m and int(m[1]):
            e = known_findings("C03").get("appended-block")
            if e:
                c.known_finding(f"appended-block: {e['what']} ({m[1]} block sizes)")
            else:
                c.violation("a load that fails changes the object", dict(detail=out))
    parallel(lambda: one(0), lambda: one(1), append)


def C04(c):
    exe = build("snapshot", [f"{HARN}/snapshot.cpp", *io_sources()], flags=["-U_FORTIFY_SOURCE"], link=WRAPS)

    def one(mode):
        f = c.path(f"snapshot{mode}.ndjson")
        out = c.harness([exe, "explore", f, SEED, q(150, 5000), int(THOROUGH)], f"saves with a mutex, mode {mode}", timeout=800, env=dict(VK_PARAMS=str(mode)))
        if out is not None:
            m = re.search(r"OK schedules=(\d+) lines=\d+ points=(\d+)", out)
            c.add("schedules", int(m[1]))
            c.detail("scheduling_points", int(m[2]))
            c.validate("SnapshotTrace", f, dict(NF=4), f"saves with a mutex, mode {mode}", invariants=(), heap="8g")
    with cf.ThreadPoolExecutor(4) as ex:
        list(ex.map(one, range(4)))


def C07(c):
    exes = parallel(*[lambda p=p: build("plain", flags=["-O0", f"-DPART={p}"]) for p in range(4)])
    kinds = [(0, q(4, 40), 30), (1, q(2, 20), 12), (2, q(2, 20), 12), (3, q(2, 20), 0), (4, q(2, 12), 12)]

    def one(part, kind, rounds, cuts):
        f = c.path(f"plain{part}.{kind}.ndjson")
        out = c.harness([exes[part], SEED, rounds, cuts, f], f"plain serialization, stream {kind}, types {part}", timeout=600, env=dict(VK_PARAMS=str(kind)))
        if out is not None:
            m = re.search(r"types=(\d+) histories=(\d+) cuts=(\d+)", out)
            for k, n in zip(("types", "histories", "truncations"), m.groups()):
                c.add(k, int(n) if k != "types" or kind == 0 else 0)
            c.validate("PlainTrace", f, None, f"plain serialization, stream {kind}, types {part}")
    with cf.ThreadPoolExecutor(6) as ex:
        for f in [ex.submit(one, p, *k) for k in kinds for p in range(4)]:
            f.result()


def C06(c):
    files, families = q((6, 4), (32, 4))
    os.makedirs(f"{BUILD}/gen", exist_ok=True)

    def make(k):
        src = f"{BUILD}/gen/vts{SEED}.{k}.cpp"
        vtsgen.generate(SEED * 1000 + k, families, src, src + ".json")
        # clang compiles these twice as fast as gcc
        return build(f"vts{k}", [src], flags=["-O0", "-g1", "-fsanitize=address"], san=False, cxx="clang++"), src + ".json"
    with cf.ThreadPoolExecutor(6) as ex:
        packed = ex.submit(build, "vts_packed")
        exes = list(ex.map(make, range(files)))
    m = re.search(r"wrong=(\d+)", c.harness([packed.result()], "packed sequences") or "")
    if m and int(m[1]):
        e = known_findings("C06").get("packed-bool-sequence")
        if e:
            c.known_finding(f"packed-bool-sequence: {e['what']}")
        else:
            c.violation("packed sequences of bool", dict(wrong=int(m[1])))

    def one(k):
        exe, schema = exes[k]
        f = c.path(f"vts{k}.ndjson")
        if c.harness([exe, SEED, q(25, 200), f], f"version tolerant reading, families {k}", timeout=600) is not None:
            c.add("families", families)
            c.validate("VtsTrace", f, None, f"version tolerant reading, families {k}", invariants=(), env=dict(SCHEMA=schema))
    with cf.ThreadPoolExecutor(6) as ex:
        list(ex.map(one, range(files)))
