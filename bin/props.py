"""What each property's check builds and runs."""
import glob, os, re

O2 = ["-O2", "-g1", "-D_GLIBCXX_ASSERTIONS", "-pthread", "-w"]
O1 = ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-pthread", "-w"]
SAN = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR", "-pthread", "-w"]
DBG = ["-O1", "-g1", "-D_GLIBCXX_DEBUG", "-pthread", "-w"]
TSAN = ["-O1", "-g1", "-fsanitize=thread", "-pthread", "-w"]


def b(name, src, flags=O2, cxx="g++", **kw):
    return dict(name=name, src=src if isinstance(src, list) else [src], flags=flags, cxx=cxx, **kw)


def job(build, tag=None, shards=8, **kw):
    return dict(build=build, tag=tag or build["name"], shards=shards, **kw)


PRIM = b("prim", "prim.cxx")
RADIAL = b("radial", "radial.cxx")
ANG = b("angular", "angular.cxx", O1, "clang++")
_SRCDIR = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src")
SRC = [os.path.relpath(x, _SRCDIR) for x in sorted(glob.glob(_SRCDIR + "/**/*.c*", recursive=True)) if x.endswith((".cxx", ".cpp", ".cc"))]
SRC.sort(key=lambda x: ("spherical" not in x, x))  # longest compilation first
SPH = b("sphere", "sphere.cxx", O1, "clang++", repo_src=SRC, optional=["ASSIGN"])
BATCH = b("batch", "batch.cxx", O2, "clang++", optional=["CONST_ITERATOR"])
FAC = b("factory", "factory.cxx", O1, "clang++", repo_src=SRC)
BLOCKS = b("blocks", "blocks.cxx", O1, "clang++", optional=["ARRAY_OPS"], soft=True)  # soft: what does not compile is left out
OOM = b("oom", "oom.cxx", O1, "clang++", repo_src=SRC)
TYPESF = b("types_float", "types.cxx", ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-pthread", "-w", "-DREAL=float"], "clang++")
TYPESL = b("types_longdouble", "types.cxx", ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-pthread", "-w", "-DREAL=long double"], "clang++")
THREADS = b("threads", "threads.cxx", O1, "clang++", repo_src=SRC)
THREADST = b("threads_tsan", "threads.cxx", TSAN, "g++", repo_src=SRC)
DET = [b("determ", "determ.cxx", O1, "clang++", repo_src=SRC),
       b("header_only_pattern", "determ.cxx", ["-O1", "-g1", "-pthread", "-w", "-DHEADER_ONLY", "-ftrivial-auto-var-init=pattern"], "clang++"),
       b("optimised_ndebug", "determ.cxx", ["-O3", "-DNDEBUG", "-march=native", "-pthread", "-w"], "clang++", repo_src=SRC),
       b("gcc_debug_verbose", "determ.cxx", ["-O0", "-DINTEGRATORXX_VERBOSITY_LEVEL=2", "-D_GLIBCXX_ASSERTIONS", "-pthread", "-w"], "g++", repo_src=SRC),
       b("gcc_header_only_verbose_ndebug", "determ.cxx", ["-O2", "-DHEADER_ONLY", "-DNDEBUG", "-DINTEGRATORXX_VERBOSITY_LEVEL=1", "-pthread", "-w"], "g++")]


def compare_digests(runs, raw, stats, maxima):
    """C22: same binary, same bits; other build, same values up to rounding."""
    first, n, cross, same = {}, 0, 0, 0
    for r, j in runs:
        for l in r.lines:
            if l["t"] != "dig":
                continue
            b = j["build"]["name"]
            ref = first.setdefault(l["case"], {})
            if b in ref:
                n += 1
                if ref[b][0]["h"] != l["h"]:
                    raw.append({"key": "process:" + re.sub(r" digest.*", "", l["case"]), "case": l["case"][l["case"].index("digest"):],
                                "msg": "%s: two processes running the same binary obtain different bits (%s, %s)" % (l["case"], ref[b][1], j["tag"]),
                                "cmd": " ".join(r.cmd), "job": j["tag"]})
                continue
            ref[b] = (l, j["tag"])
            base = next(iter(ref.values()))[0]
            if base is not l:
                cross += 1
                d = max(abs(x - y) for x, y in zip(base["p"], l["p"])) / ((3e-8 if b == "optimised_ndebug" else 2e-10) * (1 + l["s"]))
                maxima["difference to build %s / tolerance" % b] = max(maxima.get("difference to build %s / tolerance" % b, 0), d)
                if l["n"] != base["n"] or not d <= 1:
                    raw.append({"key": "build:" + re.sub(r" digest.*", "", l["case"]), "case": l["case"][l["case"].index("digest"):],
                                "msg": "%s: build %s and build %s differ by %.3g times the tolerance (%d and %d values)" % (l["case"], next(iter(ref)), b, d, base["n"], l["n"]),
                                "cmd": " ".join(r.cmd), "job": j["tag"]})
                # the same bits batched: the same batches, in builds whose arithmetic is the same (no fused operations)
                elif l["b"] != "0" and b != "optimised_ndebug" and l["b"] == base["b"]:
                    same += 1
                    if l["h"] != base["h"]:
                        raw.append({"key": "build:batches", "case": l["case"][l["case"].index("digest"):],
                                    "msg": "%s: the same points are batched differently in build %s and build %s" % (l["case"], next(iter(ref)), b),
                                    "cmd": " ".join(r.cmd), "job": j["tag"]})
    stats["digests compared"] = n + cross
    stats["batches of equal points compared between builds"] = same
    stats["digests compared between processes"] = n
    stats["digests compared between builds"] = cross


MEMS = b("memory_asan_ubsan", "memory.cxx", SAN + ["-DVM_NO_NEW_HOOK"], "g++", repo_src=SRC)
MEMD = b("memory_debug_containers", "memory.cxx", DBG, "clang++", repo_src=SRC)
MEMV = b("memory_valgrind", "memory.cxx", ["-O1", "-g1", "-pthread", "-w", "-DVM_NO_NEW_HOOK"], "clang++", repo_src=SRC)


def san(x):
    return b(x["name"] + "_asan_ubsan", x["src"], SAN, "g++", repo_src=x.get("repo_src", []), **{k: x[k] for k in ("optional", "soft") if k in x})


_SB = {x["name"]: san(x) for x in (PRIM, RADIAL, ANG, SPH, BATCH, FAC, BLOCKS, OOM)}
BATD = b("batch_debug_containers", "batch.cxx", DBG, "clang++", optional=["CONST_ITERATOR"])
C20JOBS = [job(MEMS), job(MEMD, shards=24, take=8), job(MEMV, shards=400, take=16, wrap=["valgrind", "-q", "--error-exitcode=88", "--exit-on-first-error=yes", "--max-stackframe=4000000"], tiers=("quick",)),
           job(MEMV, "valgrind_thorough", shards=800, take=800, wrap=["valgrind", "-q", "--error-exitcode=88", "--exit-on-first-error=yes", "--max-stackframe=4000000"], tiers=("thorough",), env={"SCALE": "0.5"})]
for _p, _x, _n, _t in (("C01", "prim", 16, 1), ("C02", "prim", 8, 1), ("C03", "prim", 8, 1), ("C04", "prim", 8, 1), ("C05", "radial", 8, 1), ("C06", "radial", 8, 1),
                       ("C08", "angular", 8, 1), ("C10", "angular", 16, 1), ("C11", "sphere", 8, 1), ("C12", "sphere", 8, 1), ("C14", "sphere", 8, 2),
                       ("C15", "batch", 8, 2), ("C16", "batch", 8, 1), ("C17", "batch", 8, 2), ("C09", "factory", 8, 2), ("C13", "factory", 8, 1), ("C18", "factory", 8, 1), ("C19", "factory", 8, 2),
                       ("C25", "blocks", 8, 2), ("C23", "oom", 40, 3)):
    C20JOBS.append(job(_SB[_x], _p + "_asan_ubsan", shards=_n, take=_t, prop=_p, crash_only=True))
for _p in ("C15", "C16", "C17"):
    C20JOBS.append(job(BATD, _p + "_debug_containers", shards=8, take=1, prop=_p, crash_only=True))
LDORACLE = "long double arithmetic and libm (cosl, sinl) of this platform are the reference"

PROPS = {
    "C20": dict(
        note="31 kinds of seeded requests and life cycles, and parts of the workloads of C01-C19, C23, C25, under AddressSanitizer, UndefinedBehaviorSanitizer, debug-mode containers and valgrind; heap growth of repeated requests",
        jobs=C20JOBS, min_evals=2000,
        rule="one case per seeded request or life cycle (31 kinds) under each of three monitors, plus a seeded part of the cases of the other checks under AddressSanitizer and UndefinedBehaviorSanitizer; distinct by request and monitor",
        assumptions=["the monitors see what is executed: addressable memory (AddressSanitizer), undefined operations the compilers instrument, iterator validity (debug containers), branches on uninitialised values (valgrind)"]),
    "C22": dict(
        note="seeded requests of 23 kinds repeated after others over poisoned heap and stack, in four processes (other order, other memory contents, a clock on which hours pass between readings) and in five builds (header-only, assertions off, verbose, -O0 to -O3, two compilers)",
        jobs=[job(DET[0], shards=4), job(DET[0], "backwards", shards=4, env={"BACKWARDS": "1", "DIGESTS_ONLY": "1", "MALLOC_PERTURB_": "90"}),
              job(DET[0], "fast_clock", shards=4, env={"FAST_CLOCK": "1", "DIGESTS_ONLY": "1"}),
              job(DET[0], "perturbed", shards=4, env={"DIGESTS_ONLY": "1", "MALLOC_PERTURB_": "165", "MALLOC_ARENA_MAX": "1", "LANG": "C.UTF-8"})]
             + [job(x, shards=2, env={"DIGESTS_ONLY": "1"}) for x in DET[1:]], post=compare_digests, min_evals=1000,
        rule="one case per seeded request whose outcome is compared between processes (bit for bit) and builds (to rounding), and per seeded history of 3 to 10 requests, six in ten of them repetitions judged bit for bit; distinct by outcome or history",
        assumptions=["between builds, projections of all values of an outcome are compared; for batches order-independent sums, and the batches themselves where the points have the same bits and the build the same arithmetic"]),
    "C01": dict(
        note="every n to 1800 (quick) or 2600 (thorough) and sampled larger n on each rule, against an independent long double evaluation; larger n only by sample",
        jobs=[job(PRIM)], min_evals=1000,
        rule="one case per (rule, n): every n from 1 (Legendre) / 2 (Lobatto) to the tier's bound, then seeded larger n; non-trivial when n > 2",
        assumptions=[LDORACLE]),
    "C02": dict(
        note="every n to a bound plus sampled larger n against long double closed forms",
        jobs=[job(PRIM)], min_evals=1000,
        rule="one case per (Chebyshev kind, n): every n from 0 to the tier's bound, then seeded larger n; non-trivial when n > 1",
        assumptions=[LDORACLE]),
    "C03": dict(
        note="every n to a bound on [0,1] and seeded intervals; other intervals by sample",
        jobs=[job(PRIM)], min_evals=1000,
        rule="one case per (n, interval): every n >= 2 to the tier's bound on [0,1] and on a seeded interval (incl. reversed, symmetric, offset ones); distinct by n and interval",
        assumptions=[LDORACLE]),
    "C04": dict(
        note="seeded bounds and abscissae in all four finite/infinite combinations against the long double derivative of the map and against quadrature of known integrals",
        jobs=[job(PRIM)], min_evals=1000,
        rule="one case per seeded interval (finite, half-infinite either way, infinite) with about 25 sorted abscissae incl. 1-1e-12; and whole Gauss rules pushed through each map; distinct by interval",
        assumptions=[LDORACLE]),
    "C05": dict(
        note="every n to a bound with default and seeded R, exponent and construction route; node by node against long double maps applied to independently computed base nodes",
        jobs=[job(RADIAL)], min_evals=1000,
        rule="one case per (rule, n, R, alpha, construction route): every n up to the tier's bound with default and with seeded parameters, then seeded larger n; non-trivial when n > 1",
        assumptions=[LDORACLE]),
    "C06": dict(
        note="seeded parameters; order, sign, scaling and convergence envelope of three integrands",
        jobs=[job(RADIAL)], min_evals=1000,
        rule="one case per (rule, n, seeded R, alpha, construction route): shape, scaling by a seeded factor and three integrands of seeded width; every case non-trivial",
        assumptions=[LDORACLE, "convergence envelopes are 60 times the largest error measured on the pinned tree over 8 seeds"]),
    "C07": dict(
        note="exhaustive over the grids and the harmonics up to their order; each grid through one or more construction routes; one recorded finding (Ahrens-Beylkin 5472)",
        jobs=[job(ANG)], min_evals=200,
        rule="one case per grid of the four families (every supported order, found by probing orders 0..600; thorough: also in two seeded rotated frames): all (order+1)^2 real spherical harmonics are integrated in long double; non-trivial when order > 1",
        assumptions=[LDORACLE]),
    "C08": dict(
        note="orders -60..1200 and sizes 0..8000 exhaustively, extremes by sample",
        jobs=[job(ANG)], min_evals=1000,
        rule="one case per (family, order -60..1200), per block of 500 sizes, and per seeded extreme value; non-trivial when the order or size is a supported one or extreme",
        assumptions=[]),
    "C10": dict(
        note="exhaustive over grids and group generators, with seeded words in them",
        jobs=[job(ANG)], min_evals=200,
        rule="one case per grid of the four families: every point and weight is matched with its image under each generator of the family's symmetry group and under seeded words in them",
        assumptions=["symmetry groups: octahedral (Lebedev, Delley), icosahedral rotations about axes (0,1,golden ratio) (Ahrens-Beylkin), equal weights (Womersley spherical designs)"]),
    "C11": dict(
        note="seeded grids over all rule pairs and 8 construction routes, every point compared",
        jobs=[job(SPH)], min_evals=1000,
        rule="one case per seeded (radial rule, angular rule, sizes, scale, centre, construction route); 16 rule pairs and 8 routes are cycled through; non-trivial when more than one radial point",
        assumptions=["the radial and angular factors are those the same library returns on their own (decided by C05, C07)"]),
    "C12": dict(
        note="seeded partitions over all rule pairs and construction routes, every point compared",
        jobs=[job(SPH)], min_evals=1000,
        rule="one case per seeded (radial rule, angular rule, region boundaries, angular size per region, scale, centre, construction route); non-trivial when there is more than one region",
        assumptions=["the radial and angular factors are those the same library returns on their own (decided by C05, C07)"]),
    "C14": dict(
        note="seeded histories with a model of every live grid, all compared after each operation",
        jobs=[job(SPH)], min_evals=1000,
        rule="one case per seeded history of 4 to 40 operations (new, recenter, clone, copy, move, write, drop) over a pool of up to 6 grids of 4 types; all grids are compared with their models after every operation; distinct by operation sequence",
        assumptions=[]),
    "C15": dict(
        note="seeded clouds of 14 kinds; the multiset of bit patterns is compared",
        jobs=[job(BATCH)], min_evals=1000,
        rule="one case per seeded (point cloud kind, size, batch limit, way of passing the quadrature): 14 kinds (spherical, pruned, user-defined clouds: lattice, lines, coincident, scales 1e-130..1e130, few ulps, denormal, ...); non-trivial when more than one batch results",
        assumptions=["coordinates and their differences are finite"]),
    "C16": dict(
        note="seeded clouds of 14 kinds; boxes, sizes and pairwise separation judged, allocation steps bound the run (termination is decided as bounded progress)",
        jobs=[job(BATCH)], min_evals=1000,
        rule="as C15; sizes, boxes and pairwise separation are judged, and the number of allocations of a case is bounded; non-trivial when more than one batch results",
        assumptions=["coordinates and their differences are finite", "5 million allocations stand for 'does not terminate'"]),
    "C09": dict(
        note="all sizes to a bound per family and seeded invalid requests of 40 kinds, with leak accounting and a valid neighbour each",
        jobs=[job(FAC)], min_evals=1000,
        rule="one case per block of 100 angular sizes of a family, and per seeded invalid request (size, name, enumerator, foreign or missing radial parameters, list of regions, number of points, index), each with a valid neighbour that must be accepted; distinct by request",
        assumptions=["the supported angular sizes are the published ones (harness/published_sizes.inc)"]),
    "C13": dict(
        note="all n to a bound for every scheme and family, every supported size, and seeded combinations",
        jobs=[job(FAC)], min_evals=1000,
        rule="one case per (scheme, number of radial points) over all families, per (family, size) over all schemes, and per seeded combination; non-trivial when there are more than two radial points",
        assumptions=["order of each angular size as the library reports it (decided by C07, C08)"]),
    "C18": dict(
        note="every name, seeded casings and parameters, all routes to the same grid compared point by point",
        jobs=[job(FAC)], min_evals=1000,
        rule="one case per (name, seeded casing), per angular grid of the four families, per seeded radial rule, and per seeded (radial rule, angular rule) pair with every route to the same grid; distinct by arguments",
        assumptions=[]),
    "C19": dict(
        note="seeded pairs and histories with a model of every live specification",
        jobs=[job(FAC)], min_evals=1000,
        rule="one case per seeded pair of radial parameters (equal, one field one ulp off, other rule), per seeded history of 4 to 25 operations over up to 6 specifications, and per pair of regions; distinct by values or operation sequence",
        assumptions=[]),
    "C23": dict(
        note="every allocation of seeded requests of 26 kinds fails in turn (k-th failure for every k until the request succeeds); no leak, no changed bystander, and a retry succeeds",
        level="fault_enumeration",
        jobs=[job(OOM)], min_evals=200,
        rule="one case per seeded request of 26 kinds (classes, factories, specifications, schemes, partitions, clones, batchers, views); each is repeated with its k-th allocation failing for k = 0, 1, 2, ... until it succeeds; non-trivial when at least one allocation failed",
        assumptions=["allocations go through operator new"]),
    "C21": dict(
        note="crowds of 2 to 16 threads making seeded requests of 23 kinds and reading shared objects, each crowd in a fresh process; race detector plus bit-for-bit comparison with the same requests made alone in another process",
        jobs=[job(THREADS, distinct_by_job=True), job(THREADST, distinct_by_job=True)], min_evals=200,
        rule="one case per crowd: number of threads, requests, injected delays at allocations and mode (all the same request, few kinds, all kinds, shared objects) are seeded, and the crowd is the first use of the library in its process; distinct by the observed order of begins and ends of requests, non-trivial when requests overlapped",
        assumptions=["ThreadSanitizer's happens-before model; races are found on executed paths, whatever the interleaving"]),
    "C24": dict(
        note="float and long double instantiations (and mixes with double) of every rule, grid, map and batcher against the double ones",
        jobs=[job(TYPESF, shards=4), job(TYPESL, shards=4)], min_evals=1000,
        rule="one case per (type, primitive rule, n), (type, radial rule, n, default or seeded R and alpha), (type, angular grid), and per seeded composite grid (with recentring and batching) and map; non-trivial when there are more than two points",
        assumptions=["the double instantiation is right (decided by C01-C17)", "tolerances grow with the conditioning of the maps at each node; constants are several times the largest error measured on the pinned tree"]),
    "C25": dict(
        note="seeded ranges, products, partitions and copies over all primitive, radial, angular and composite types",
        jobs=[job(BLOCKS)], min_evals=1000,
        rule="one case per seeded one-dimensional rule (7 kinds) or (radial rule, angular rule) pair: accessors, sub-ranges, nested sub-ranges, copies, moves, products, partitions by every construction and iteration; distinct by arguments",
        assumptions=[]),
    "C17": dict(
        note="seeded histories with a model of every live batcher",
        jobs=[job(BATCH)], min_evals=500,
        rule="one case per seeded history of 3 to 25 operations (make, recenter, clone, move, copy, write, drop) over a pool of up to 5 batchers; every view of every batcher is compared with its model after each operation; distinct by operation sequence",
        assumptions=[]),
}

_PENDING = "machinery in preparation"
NOT_APPLICABLE = {
     
    "C26": "decided when a program is compiled and linked, before there is any execution to monitor",
}
