"""Checks of the containers and observers: C10 - C18."""
from vk import *


def wide(c, exe, n, module, consts, rare, env=None):
    """A history of containers of hundreds of elements: the operations in `rare`, which make them small, are rare."""
    c.record(exe, n, module, consts, what="histories of large containers", episode=n, env=dict(params(consts), **(env or {}), VK_WIDE=rare), seed=SEED + 70)


def C10(c):
    exe = build("vector_set")
    small = dict(NK=3, NP=1, NS=2, NL=1, ND=1, Big=16)
    g = c.graph("VectorSetMC", small)
    tests, n = c.tours(g, limit=None)
    c.detail("edges_replayed", n)
    c.replay(exe, tests, env=dict(VK_PARAMS="2,1,3,1,4"))
    # sets whose comparers have different states
    tests, m = c.tours(c.graph("VectorSetMC", dict(NK=3, NP=1, NS=2, NL=q(0, 1), ND=2, Big=16)))
    c.detail("comparer_edges_replayed", m)
    c.replay(exe, tests, "replay with two comparers", env=dict(VK_PARAMS=f"2,{q(0, 1)},3,1,4"))
    # every insertion and erasure in every reachable shape of the search tree
    tests, n = c.tours(c.graph("VectorTreeMC", dict(NK=q(5, 6), Big=16)))
    c.detail("tree_shape_edges_replayed", n)
    c.replay(exe, tests, "replay of all tree shapes", env=dict(VK_PARAMS="1,1,6,1,6"))
    nk, ep = q((90, 500), (200, 1500))
    big = dict(NK=nk, NP=3, NS=3, NL=3, ND=2, Big=16)
    c.record(exe, q(12000, 60000), "VectorSetTrace", big, episode=ep, env=dict(VK_PARAMS=f"3,3,{nk},3,{nk}"))
    wide(c, exe, q(1300, 3000), "VectorSetTrace", dict(NK=700, NP=1, NS=1, NL=1, ND=1, Big=16), "clear,new,build,copynew,assign,movenew,massign,swap", dict(VK_PARAMS="1,1,700,1,700"))


def C11(c):
    exe = build("vector_cost", flags=["-O2"])
    # the balance of the tree in the specification after insertions only
    c.model("VectorTree", dict(INIT="Init", NEXT="InsertNext", VIEW="View", CONSTANTS=dict(NK=q(9, 12), Big=16), CHECK_DEADLOCK="FALSE",
                                 INVARIANT=["Inv", "RedBlack"]), workers=8, quick_jit=False)
    nk = q(60, 100)
    for i in range(q(1, 4)):
        f = c.path(f"cost{i}.ndjson")
        if c.harness([exe, SEED + i, q(4500, 9000), f], "measuring key comparisons", env=dict(VK_PARAMS=str(nk), VK_BULK=q("20000", "100000"))) is not None:
            c.validate("VectorCostTrace", f, dict(NK=nk, Big=16), "lookup cost of recorded histories")
    # the known finding: erasures do not rebalance
    for key, e in known_findings("C11").items():
        out = c.harness([exe, "history", " ".join(map(str, e["history"]))], "the history of " + key)
        m = out and re.search(r"excess=(-?\d+) elements=(\d+)", out)
        if m and int(m[1]) > 0:
            c.known_finding(f"{key}: {e['what']} (observed: {m[1]} comparisons over the bound with {m[2]} elements)")


def C16(c):
    exe = build("lists")
    c.sweep(exe, "ListsMC", [dict(NE=4, NA=2, NB=0, NS=0), dict(NE=2, NA=2, NB=1, NS=1), dict(NE=3, NA=1, NB=1, NS=0), dict(NE=3, NA=3, NB=0, NS=0)]
            + q([], [dict(NE=5, NA=2, NB=0, NS=0), dict(NE=3, NA=2, NB=1, NS=1)]))
    big = dict(NE=12, NA=3, NB=2, NS=2)
    c.record(exe, q(8000, 60000), "ListsTrace", big, episode=400, env=params(big))
    wide(c, exe, q(1200, 3000), "ListsTrace", dict(NE=500, NA=1, NB=1, NS=1), "clear,movenew,massign")


def C15(c):
    exe = build("observers")
    c.sweep(exe, "ObserversMC", [dict(NO=2, NB=3), dict(NO=1, NB=4)] + q([], [dict(NO=3, NB=3), dict(NO=2, NB=4)]), limit=q(30000, None))
    big = dict(NO=3, NB=9)
    c.record(exe, q(10000, 100000), "ObserversTrace", big, episode=300, env=params(big))
    wide(c, exe, q(1000, 3000), "ObserversTrace", dict(NO=1, NB=450), "destroyo")


def C17(c):
    exe = build("ring")
    c.sweep(exe, "RingMC", [dict(NR=1, NV=2, NC=3, Track=1), dict(NR=2, NV=1, NC=2, Track=1), dict(NR=2, NV=2, NC=2, Track=0)]
            + q([], [dict(NR=1, NV=3, NC=4, Track=1), dict(NR=2, NV=2, NC=3, Track=0)]))
    big = dict(NR=3, NV=9, NC=8, Track=0)
    c.record(exe, q(12000, 100000), "RingTrace", big, episode=400, env=params(big))
    wide(c, exe, q(1500, 5000), "RingTrace", dict(NR=1, NV=9, NC=600, Track=0), "clear,new,reserve,movenew,massign,assign,copynew")


def C18(c):
    exe = build("pool")
    c.sweep(exe, "PoolMC", [dict(NS=3, Global=0), dict(NS=3, Global=1)] + q([], [dict(NS=4, Global=0), dict(NS=4, Global=1)]), extra=dict(CONSTRAINT="Bound"))
    for glob in (0, 1):
        big = dict(NS=8, Global=glob)
        c.record(exe, q(6000, 60000), "PoolTrace", big, episode=300, env=params(big))
    wide(c, exe, q(600, 2000), "PoolTrace", dict(NS=90, Global=0), "clear")


def C12(c):
    exe = build("observable_set")
    c.sweep(exe, "ObservableSetMC", [dict(NS=2, NK=2, NB=2), dict(NS=2, NK=3, NB=1)] + q([], [dict(NS=3, NK=2, NB=2), dict(NS=2, NK=3, NB=2)]))
    big = dict(NS=3, NK=14, NB=6)
    c.record(exe, q(8000, 60000), "ObservableSetTrace", big, episode=300, env=params(big))
    wide(c, exe, q(1000, 3000), "ObservableSetTrace", dict(NS=1, NK=900, NB=100), "clear,new,build")


def C13(c):
    exe = build("mirror")
    c.sweep(exe, "MirrorMC", [dict(NS=1, NM=3, NK=2), dict(NS=2, NM=2, NK=2)] + q([], [dict(NS=2, NM=3, NK=2), dict(NS=1, NM=3, NK=3)]), limit=q(30000, 400000))
    big = dict(NS=3, NM=6, NK=20)
    c.record(exe, q(10000, 60000), "MirrorTrace", big, episode=300, env=params(big))
    wide(c, exe, q(1200, 3000), "MirrorTrace", dict(NS=1, NM=2, NK=900), "clear")


def C14(c):
    exe = build("foreign")
    cs = [dict(NS=1, NF=1, NP=3, NG=3, Kind=0)] + [dict(NS=2, NF=1, NP=2, NG=2, Kind=k) for k in range(5)]
    c.sweep(exe, "ForeignMC", cs + q([], [dict(NS=2, NF=2, NP=2, NG=2, Kind=0), dict(NS=2, NF=1, NP=3, NG=2, Kind=4)]), limit=q(20000, 400000))
    for k in range(5):
        big = dict(NS=2, NF=3, NP=14, NG=5, Kind=k)
        c.record(exe, q(1500, 15000), "ForeignTrace", big, episode=400, env=params(big))


def C60(c):
    exe = build("failing")
    jobs = []
    for mode in (0, 1):
        e = dict(VK_MODE=str(mode))
        jobs += [lambda e=e: c.sweep(exe, "FailingMC", [dict(K=1, V=q(2, 3), N=2, L=2)], timeout=600, env=e),
                 lambda e=e: c.sweep(exe, "FailingMC", [dict(K=2, V=1, N=2, L=2)] + q([], [dict(K=2, V=2, N=2, L=2), dict(K=2, V=2, N=1, L=4)]), timeout=600, env=e)]
        for k in (1, 2):
            big = dict(K=k, V=40, N=3, L=12)
            jobs += [lambda e=e, s=s, big=big: c.record(exe, q(2500, 40000), "FailingTrace", big, episode=80, env=dict(params(big), **e), seed=SEED + s) for s in range(q(1, 3))]
    rare = "clear,new,build,reserve,movenew,massign,assign,swap,copynew"
    for big in (dict(K=1, V=500, N=2, L=1), dict(K=2, V=9, N=2, L=300)):
        jobs.append(lambda big=big: wide(c, exe, q(500, 2500), "FailingTrace", big, rare, dict(params(big), VK_MODE="1")))
    parallel(*jobs)
