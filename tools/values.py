"""The small values: aggregators, singletons, guards, decimals, bitmaps, comparers, options."""
from vk import *
import types_gen


def C40(c):
    exes = parallel(*[(lambda t=t: build("aggregator", flags=[f"-DTYPE={t}"])) for t in range(3)])

    def run(t, exe):
        once = int(t == 2)
        c.sweep(exe, "AggregatorMC", [dict(NS=1, A=3, V=2, Once=once)] + q([], [dict(NS=2, A=3, V=1, Once=once)]))
        if not once:
            big = dict(NS=3, A=3, V=2, Once=0)
            c.record(exe, q(6000, 100000), "AggregatorTrace", big, episode=100, env=params(big))
    parallel(*[(lambda t=t: run(t, exes[t])) for t in range(3)])


def C41(c):
    exes = parallel(*[(lambda t=t: build("singleton", flags=[f"-DTYPE={t}", "-O0"])) for t in range(2)])

    def run(t, exe):
        c.sweep(exe, "SingletonMC", [dict(H=2, MaxI=2, Null=t)] + q([], [dict(H=3, MaxI=2, Null=t)]), batch=40)
        big = dict(H=5, MaxI=1000, Null=t)
        for s in range(q(2, 20)):
            c.record(exe, 4000, "SingletonTrace", big, episode=300, env=params(big), seed=SEED + s)
    parallel(*[(lambda t=t: run(t, exes[t])) for t in range(2)])


def C42(c):
    exes = parallel(*[(lambda t=t: build("owners", flags=[f"-DTYPE={t}"])) for t in range(3)])

    def run(t, exe):
        d = dict(Kind=1 + (t == 2), NS=3, N=2 if t == 2 else 3, Assign=int(t > 0))
        c.sweep(exe, "OwnersMC", [d])
        big = dict(d, NS=5, N=5)
        c.record(exe, q(6000, 100000), "OwnersTrace", big, episode=150, env=params(big))
    parallel(*[(lambda t=t: run(t, exes[t])) for t in range(3)])


# the integer and the length of the exponent of each type: bits of the mantissa, the largest exponent
DECIMALS = {0: (59, 15), 1: (28, 7), 2: (58, 19), 3: (62, 1), 4: (121, 38), 5: (123, 15), 6: (23, 9), 7: (57, 19), 8: (122, 31), 9: (122, 31)}


def C43(c):
    types = q([0, 1, 2, 3, 4, 9], list(DECIMALS))
    exes = dict(zip(types, parallel(*[(lambda t=t: build("decimal", flags=[f"-DTYPE={t}", f"-I{REPO}/Extras/Boost"])) for t in types])))

    def run(t):
        bits, e = DECIMALS[t]
        exe = exes[t]
        parts = q({0: [1, 2, 3], 1: [1, 4], 2: [2], 4: [3]}.get(t, []), [1, 2, 3, 4])
        c.sweep(exe, "DecimalMC", [dict(R=1, Bits=bits, MaxE=e, Wide=q(0, 1), Part=p) for p in parts], timeout=900)
        d = dict(R=3, Bits=bits, MaxE=e, Wide=0, Part=1)
        c.record(exe, q(3000, 100000), "DecimalTrace", d, episode=60, env=params(d))

    def digits():
        d = dict(R=1, Bits=DECIMALS[0][0], MaxE=DECIMALS[0][1])
        m = re.search(r"kept=(\d+)", c.harness([exes[0], "digits"], "more digits than a decimal can have", env=params(d)) or "")
        if m and int(m[1]):
            e = known_findings("C43").get("constructor-digits")
            if e:
                c.known_finding(f"constructor-digits: {e['what']} ({m[1]} numbers of digits)")
            else:
                c.violation("more digits than a decimal can have", dict(not_refused=int(m[1])))
    parallel(digits, *[(lambda t=t: run(t)) for t in types])


def C44(c):
    counts = q([3, 9, 1, 64, 65, 300], [3, 9, 1, 8, 64, 65, 255, 300, 512])
    exes = dict(zip(counts, parallel(*[(lambda n=n: build("bitmap", flags=[f"-DCOUNT={n}"])) for n in counts])))

    def run(n):
        if n in q([1, 3], [1, 3, 8, 9]):
            c.sweep(exes[n], "BitMapMC", [dict(N=n, R=2 if n < 8 else 1)])
        d = dict(N=n, R=3)
        c.record(exes[n], q(3000 if n < 10 else 1000 if n < 100 else 400, 50000 if n < 100 else 10000), "BitMapTrace", d, episode=100, env=params(d))
    parallel(*[(lambda n=n: run(n)) for n in counts])


def C45(c):
    exe = build("compare")
    parallel(lambda: c.sweep(exe, "CompareMC", [dict(A=q(1, 2), B=1, C=2)]),
             *[(lambda s=s: c.record(exe, q(4000, 40000), "CompareTrace", dict(A=1, B=1, C=2), episode=100, seed=SEED + s)) for s in range(q(2, 6))])


def testing(name):
    return build(name, [f"{HARN}/{name}.cpp", *lib_sources("Testing")])


def runner(c, exe, parts, n):
    parallel(*[(lambda p=p: c.sweep(exe, "RunnerMC", [dict(Part=p)], timeout=900)) for p in parts],
             lambda: c.record(exe, n, "RunnerTrace", dict(Part=1), episode=100))


def C46(c):
    exe, console = parallel(lambda: testing("options"), lambda: testing("runner"))
    parallel(lambda: runner(c, console, [1], q(1500, 30000)),
             *[(lambda p=p: c.sweep(exe, "OptionsMC", [dict(Part=p)], timeout=900)) for p in (1, 2, 3)],
             *[(lambda s=s: c.record(exe, q(4000, 60000), "OptionsTrace", dict(Part=1), episode=60, seed=SEED + s)) for s in range(q(1, 4))])


def C47(c):
    runner(c, testing("runner"), q([2], [2, 3]), q(2500, 60000))


def C48(c):
    exe = build("names")
    parallel(*[(lambda p=p: c.sweep(exe, "NamesMC", [dict(Part=p)], timeout=600)) for p in (1, 2, 3)],
             *[(lambda s=s: c.record(exe, q(4000, 60000), "NamesTrace", dict(Part=1), episode=100, seed=SEED + s)) for s in range(q(1, 4))])


def C50(c):
    from iochecks import WRAPS
    exe = build("files", flags=["-U_FORTIFY_SOURCE"], link=WRAPS)
    big = dict(H=4, L=60, Faults=1)
    far = dict(VK_BASE=str(5 * 2**30 + 3))    # the same file behind a hole: positions of more than 32 bits
    parallel(lambda: c.sweep(exe, "FilesMC", [dict(H=1, L=q(2, 3), Faults=1)], extra=dict(CONSTRAINT="Bound"), timeout=900, env=far),
             lambda: c.record(exe, q(2000, 20000), "FilesTrace", big, episode=150, env=dict(params(big), **far), seed=SEED + 90),
             lambda: c.sweep(exe, "FilesMC", [dict(H=1, L=q(3, 4), Faults=1)] + q([], [dict(H=2, L=2, Faults=1)]), extra=dict(CONSTRAINT="Bound"), timeout=900),
             lambda: c.sweep(exe, "FilesMC", [dict(H=2, L=1, Faults=0)], extra=dict(CONSTRAINT="Bound"), timeout=900),
             *[(lambda s=s: c.record(exe, q(4000, 60000), "FilesTrace", big, episode=150, env=params(big), seed=SEED + s)) for s in range(q(2, 6))])


def C52(c):
    exe = build("hash")
    parallel(*[(lambda p=p: c.sweep(exe, "HashMC", [dict(Part=p)], timeout=600)) for p in (1, 2, 3)],
             *[(lambda s=s: c.record(exe, q(3000, 60000), "HashTrace", dict(Part=1), episode=100, seed=SEED + s)) for s in range(q(1, 4))])


def C51(c):
    exe = build("wire", flags=["-O0"])
    parallel(*[(lambda p=p: c.sweep(exe, "WireMC", [dict(Part=p)], timeout=600)) for p in (1, 2, 3, 4)],
             *[(lambda s=s: c.record(exe, q(3000, 60000), "WireTrace", dict(Part=1), episode=100, seed=SEED + s)) for s in range(q(1, 4))])


def C54(c):
    exe = build("members")
    parallel(*[(lambda p=p: c.sweep(exe, "MembersMC", [dict(Part=p, V=1)], timeout=600)) for p in (1, 2, 3)],
             *[(lambda s=s: c.record(exe, q(5000, 60000), "MembersTrace", dict(Part=1, V=1), episode=100, seed=SEED + s)) for s in range(q(1, 4))])


def C49(c):
    exe = build("registry")
    parallel(*[(lambda p=p, l=l: c.sweep(exe, "RegistryMC", [dict(Part=p, L=l)], timeout=600)) for p, l in ((1, q(3, 4)), (2, q(2, 3)), (3, q(2, 4)))],
             *[(lambda s=s: c.record(exe, q(4000, 60000), "RegistryTrace", dict(Part=1, L=3), episode=80, seed=SEED + s)) for s in range(q(1, 4))])


def C53(c):
    exe = build("text")
    parallel(*[(lambda p=p: c.sweep(exe, "TextMC", [dict(Part=p)], timeout=600)) for p in (1, 2, 3, 4)],
             *[(lambda s=s: c.record(exe, q(4000, 60000), "TextTrace", dict(Part=1), episode=100, seed=SEED + s)) for s in range(q(1, 4))])


def C55(c):
    exe = build("helpers")
    parallel(*[(lambda p=p: c.sweep(exe, "HelpersMC", [dict(Part=p, L=q(2, 4))], timeout=600)) for p in (1, 2, 3)],
             *[(lambda s=s: c.record(exe, q(4000, 60000), "HelpersTrace", dict(Part=1, L=1), episode=100, seed=SEED + s)) for s in range(q(1, 4))])


def C56(c):
    exe = build("wide", flags=[f"-I{REPO}/Extras/Boost"])
    parallel(*[(lambda p=p: c.sweep(exe, "WideIntMC", [dict(Part=p)], timeout=600)) for p in (1, 2, 3)],
             *[(lambda s=s: c.record(exe, q(4000, 60000), "WideIntTrace", dict(Part=1), episode=100, seed=SEED + s)) for s in range(q(1, 4))])


def C57(c):
    exe = build("wire", flags=["-O0", "-DDECODE"])
    parallel(*[(lambda p=p: c.sweep(exe, "WireMC", [dict(Part=p)], timeout=900)) for p in (5, 6, 7)],
             *[(lambda s=s: c.record(exe, q(3000, 60000), "WireTrace", dict(Part=1), episode=100, seed=SEED + s)) for s in range(q(1, 4))])


def C58(c):
    exes = parallel(*[(lambda f=f: build("assertions", flags=f)) for f in ([], ["-DAWT_NO_ASSERTS"])])

    def run(off, exe):
        c.sweep(exe, "AssertionsMC", [dict(Part=p, Off=off) for p in ((1, 2) if off else (1, 2, 3))])
        for s in range(q(1, 4)):
            c.record(exe, q(3000, 60000), "AssertionsTrace", dict(Part=1, Off=off), episode=100, seed=SEED + s)
    parallel(*[(lambda k=k: run(k, exes[k])) for k in range(2)])


def C59(c):
    def one(seed):
        text, n = types_gen.make(seed, 14, 160)
        path = f"{BUILD}/gen/types{seed}.h"
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if not os.path.exists(path) or open(path).read() != text:
            tmp = f"{path}.{os.getpid()}"
            with open(tmp, "w") as f:
                f.write(text)
            os.rename(tmp, path)
        return build("types", flags=["-O0", "-ftemplate-depth=4000", f"-DGEN=\"{path}\""]), n
    made = parallel(*[(lambda s=s: one(s)) for s in range(q(2, 16))])
    parallel(*[(lambda e=e, n=n: c.record(e, n, "TypesTrace", what="types made up")) for e, n in made])
