# What each property's check runs: harness file, symbolic instances (entry + structural parameters), bounds.
# "jobs" run in both tiers, "thorough" is added in the thorough tier. An instance fixes structural parameters
# (grid, algorithm, number of points, loading directions); everything named "symbolic" in the bounds text is a solver variable.
ASSUME = [
    "double arithmetic is modelled as exact real arithmetic; decimal literals and correctly rounded simple constants (1/3, sqrt(2/3), the Gauss coordinate 0.577350269189626) stand for their ideal values; rounding, overflow and cancellation are outside the model, and native replays use a relative tolerance of 1e-9",
    "libstdc++ streams, C formatting and std::list node linking are modelled by the engine, the rest of the C++ library used is executed from its own headers",
    "IR comes from clang-18 -O0 plus SROA of the current /repo/src/*.cpp",
    "a counterexample is reported only when the native build of the same sources shows it too",
]
G2 = [(2, 2), (2, 4), (4, 2), (3, 3), (3, 5), (5, 3), (4, 4), (6, 5)]
G3 = [(2, 2, 2), (3, 3, 3), (2, 3, 4), (4, 2, 3), (3, 4, 2), (4, 3, 5), (5, 4, 3), (4, 4, 4)]
B2 = [(9, 3), (3, 9), (12, 11)]
B3 = [(2, 2, 8), (2, 8, 2), (8, 2, 2), (6, 7, 6)]
H2 = [(20, 20), (31, 4), (4, 31)]
H3 = [(10, 10, 10), (2, 3, 20), (20, 2, 3), (3, 20, 2)]
L2 = [(16, 16), (31, 4), (4, 31)]
L3 = H3[1:]
X2 = [(40, 40), (100, 3), (3, 100)]
X3 = [(13, 13, 13), (2, 2, 60), (60, 2, 2), (2, 60, 2)]
G2T = [(a, b) for a in range(2, 8) for b in range(2, 8) if (a, b) not in G2]
G3T = [(a, b, c) for a in range(2, 6) for b in range(2, 6) for c in range(2, 6) if (a, b, c) not in G3]
def grid2(l, entry, harness=None, **k): return [J(entry, harness=harness, dim=2, nx=a, ny=b, **k) for a, b in l]
def grid3(l, entry, harness=None, **k): return [J(entry, harness=harness, dim=3, nx=a, ny=b, nz=c, **k) for a, b, c in l]
def J(entry, timeout=None, harness=None, **k):
    d = dict(entry=entry, params=k)
    if timeout: d["timeout"] = timeout
    if harness: d["harness"] = harness
    return d
def hist(l, entry="h_history"): return [J(entry, steps=s, dirs=d, **k) for s, d, k in l]
KA = dict(Ka=500000)
# nothing cut, public interface only: keeps a verdict when private names change
def pub(w, **k): return [J("h_pubout", harness="c_pub.cpp", what=w, dim=2, nx=3, ny=3, **k), J("h_pubout", harness="c_pub.cpp", what=w, dim=3, nx=3, ny=3, nz=3, **k)]
def pubh(l): return [J("h_history", harness="c_hist.cpp", steps=s, dirs=d, **k) for s, d, k in l]
PLAN = {
    "C01": dict(harness="c_field.cpp", jobs=pub(1) + grid2([(2, 2), (3, 3), (4, 3), (3, 4), (4, 4)], "h_average", what=1) + grid3([(2, 2, 2), (3, 2, 2), (2, 3, 4), (3, 3, 3), (4, 2, 3), (2, 4, 2), (4, 4, 4)], "h_average", what=1) + grid2(B2 + L2, "h_average", what=1) + grid3(B3 + L3, "h_average", what=1)
            + grid2([(2, 2), (2, 3), (4, 2)], "h_elastic", harness="c_api.cpp") + grid3([(2, 2, 2), (2, 3, 3), (3, 3, 2)], "h_elastic", harness="c_api.cpp")
            + grid2([(2, 2), (2, 3), (4, 2)], "h_elastic", harness="c_api.cpp", lin=1) + grid3([(2, 2, 2), (3, 3, 2)], "h_elastic", harness="c_api.cpp", lin=1)
            + grid2([(3, 2)], "h_elastic", harness="c_api.cpp", type=0) + grid3([(3, 3, 2)], "h_elastic", harness="c_api.cpp", type=0)
            + [J("h_plave", harness="c_flag.cpp", what=1, nx=a, ny=b, nz=c, node=n, **k) for a, b, c, n, k in [(2, 2, 2, 3, {}), (3, 2, 2, 4, dict(comp=1)), (2, 3, 2, 6, dict(comp=1, Ka=100000, neg=1)), (2, 3, 2, 3, dict(comp=3)), (2, 3, 2, 11, dict(comp=2))]],
        thorough=grid2([(5, 4), (3, 6), (20, 20)], "h_average", what=1) + grid3([(4, 3, 3), (3, 4, 4), (10, 10, 10)], "h_average", what=1) + grid2([(2, 6), (6, 2)], "h_elastic", harness="c_api.cpp") + grid3([(2, 4, 4), (4, 2, 4), (4, 4, 2)], "h_elastic", harness="c_api.cpp") + [J("h_plave", harness="c_flag.cpp", what=1, nx=3, ny=3, nz=2, node=n) for n in (0, 4, 13)],
        covers=["average", "full solve", "linear shortcut", "plastic averages", "partly plastic", "public output"],
        bounds="2D grids to 16x16/31x4 and 3D grids to 6x7x6 and 20 nodes in a direction (thorough: 20x20, 10x10x10); cell lengths in [1/4,4], both materials' E, nu and every nodal displacement symbolic. Public-interface runs on grids with no free node: E in [1,1e8], nu in [0,0.45], strain components in [-1,1], geometry and layer/inclusion width symbolic. Partly plastic cells: one symbolic load, different history at each integration point, 2x2x2 to 3x2x2 nodes. Outside: larger grids, rounding."),
    "C02": dict(harness="c_field.cpp", jobs=pub(2) + grid2([(2, 2), (3, 3), (4, 3), (3, 5)], "h_setdispl") + grid3([(2, 2, 2), (3, 2, 4), (2, 3, 4), (3, 3, 3), (4, 4, 4), (4, 3, 5)], "h_setdispl") + grid2(B2 + H2, "h_setdispl") + grid3(B3 + H3, "h_setdispl"), thorough=grid2(G2T + X2, "h_setdispl") + grid3(G3T + X3, "h_setdispl"), covers=["setdispl", "public output"],
        bounds="2D grids to 20x20/31x4, 3D grids to 10x10x10 and 20 nodes in a direction (thorough: every 2D grid to 7x7, every 3D grid to 5x5x5, 40x40, 13x13x13, 100 nodes in a direction); all strain components, cell lengths and the initial interior displacements symbolic. Outside: larger grids."),
    "C03": dict(harness="c_field.cpp", jobs=pub(3) + grid2([(2, 2), (3, 3), (4, 3), (3, 4)], "h_stiff") + grid3([(2, 2, 2), (3, 2, 2), (2, 3, 3), (2, 2, 16), (3, 14, 2), (14, 2, 3)], "h_stiff") + grid2([(2, 2), (3, 3), (4, 3), (3, 4), (4, 4), (7, 6), (3, 9), (20, 3)], "h_global") + grid3([(3, 3, 3), (4, 3, 3), (3, 4, 3), (3, 3, 4)], "h_global")
            + [J("h_plstiff", harness="c_flag.cpp", dir=d, hist=h, Ka=k, nx=n) for d, h, k, n in ((1, 0, 0, 2), (6, 0, 500000, 3), (7, 0, 0, 2), (1, 1, 500000, 2), (8, 0, 500000, 2), (1, 2, 0, 2), (6, 2, 500000, 3))] + [J("h_plstiff", harness="c_flag.cpp", dir=1, node=2), J("h_plstiff", harness="c_flag.cpp", dir=6, node=5, hist=2, Ka=500000)],
        thorough=grid2([(5, 4), (4, 5), (10, 9), (3, 20)], "h_global") + grid3([(4, 4, 4), (3, 3, 14)], "h_global") + [J("h_plstiff", harness="c_flag.cpp", dir=d, node=n, hist=h) for d, n, h in ((7, 0, 2), (8, 7, 0), (3, 3, 2))] + [J("h_plstiff", harness="c_flag.cpp", dir=d, hist=h, nx=2) for d in (1, 3, 6, 7, 8, 9) for h in (0, 1)],
        covers=["stiff", "global", "plastic stiffness", "elastic stiffness", "partly plastic element", "public output"],
        bounds="2D grids to 7x6/3x9/20x3 and 3D grids to 4x3x3/3x4x3/3x3x4 nodes (elements: 16 nodes in a direction; thorough: 10x9, 3x20, 4x4x4, 3x3x14); cell lengths, E, nu of both materials and all nodal displacements symbolic. Plastic element stiffness: strain along 5 fixed directions with symbolic amplitude, uniform or with one node moved, the same or a different history at each integration point, with and without hardening, tolerance 1e-4 E for the perturbation step. Outside: larger grids."),
    "C04": dict(harness="c_ell.cpp", jobs=grid2(G2, "h_assembly") + grid3(G3, "h_assembly") + grid2([(3, 3), (2, 3)], "h_assembly", nf=1) + grid2([(3, 3)], "h_assembly", full=1) + grid2(B2 + H2, "h_assembly") + grid3(B3 + H3, "h_assembly") + grid2([(3, 4)], "h_assembly", nf=3) + grid3([(3, 3, 3), (2, 4, 3)], "h_assembly", nf=1) + grid3([(3, 3, 3), (4, 2, 3)], "h_assembly", nf=2) + grid3([(3, 3, 3)], "h_assembly", nf=4),
        thorough=grid2(G2T + X2, "h_assembly") + grid3(G3T + X3, "h_assembly") + grid3([(2, 2, 2), (3, 2, 2)], "h_assembly", full=1), covers=["assembly"],
        bounds="2D grids to 20x20/31x4, 3D grids to 10x10x10 and 20 nodes in a direction (thorough: every grid to 7x7 and 5x5x5, 40x40, 13x13x13, 100 nodes in a direction), 1 to 4 fields per node; the vector and one scale per element matrix symbolic (every entry of every element matrix symbolic on 3x3). Outside: larger grids."),
    "C05": dict(harness="c_ell.cpp", jobs=grid2(G2, "h_bc") + grid3(G3, "h_bc") + grid2([(4, 5)], "h_bc", nf=1) + grid2(B2 + H2, "h_bc") + grid3(B3 + H3, "h_bc") + grid2([(4, 4)], "h_bc", nf=3) + grid3([(3, 3, 3), (4, 3, 5)], "h_bc", nf=1) + grid3([(4, 4, 3)], "h_bc", nf=2) + grid3([(3, 4, 4)], "h_bc", nf=4), thorough=grid2(G2T + X2, "h_bc") + grid3(G3T + X3, "h_bc"), covers=["bc"],
        bounds="2D grids to 20x20/31x4, 3D grids to 10x10x10 and 20 nodes in a direction (thorough: every grid to 7x7 and 5x5x5, 40x40, 13x13x13, 100 nodes in a direction), 1 to 4 fields per node; vector and element matrix scales symbolic. Outside: larger grids."),
    "C06": dict(harness="c_solve.cpp", jobs=[J("h_solver", nx=3, ny=3, alg=a, symw=4, symb=2, guess=1, bb=0) for a in (0, 1)] + [J("h_solver", nx=4, ny=3, alg=a, guess=g, symw=2 * (1 - g), symb=0, symsc=0) for a in (0, 1) for g in (0, 1)]
            + [J("h_solver", nf=2, nx=a, ny=b, alg=g, guess=1, bb=1, symsc=0) for a, b in [(3, 3), (4, 3), (3, 4), (4, 4)] for g in (0, 1)] + [J("h_solver", nf=2, nx=a, ny=b, alg=g) for a, b in [(3, 3), (5, 3), (4, 4)] for g in (0, 1)]
            + [J("h_solver", dim=3, nf=3, nx=a, ny=b, nz=c, alg=1, guess=1, bb=1, symsc=0) for a, b, c in [(3, 3, 3), (4, 3, 3)]] + [J("h_solver", dim=3, nf=3, nx=a, ny=b, nz=c, alg=1) for a, b, c in [(3, 3, 3), (3, 4, 3), (3, 3, 4)]]
            + [J("h_solver", nx=4, ny=3, alg=2, max=3, symw=6, symb=2), J("h_solver", nf=2, nx=4, ny=3, alg=2, max=4, guess=1, bb=1), J("h_solver", nf=2, nx=4, ny=4, alg=0, max=2, must=0), J("h_solver", dim=3, nf=3, nx=3, ny=3, nz=4, alg=1, max=2, must=0)] + [J("h_solver", nf=3, nx=3, ny=3, alg=g) for g in (0, 1)] + [J("h_solver", dim=3, nf=k, nx=3, ny=3, nz=3, alg=1) for k in (1, 4)],
        thorough=[J("h_solver", nf=2, nx=5, ny=4, alg=g) for g in (0, 1)] + [J("h_solver", dim=3, nf=3, nx=4, ny=4, nz=3, alg=1)] + [J("h_solver", nx=5, ny=4, alg=2, max=3, symw=2, symb=2)], covers=["solver", "converged", "not converged"],
        bounds="symmetric positive definite systems assembled on 2D grids to 5x3/4x4 (1 to 3 fields) and 3D grids to 4x3x3 (3 fields) and 3x3x3 (1 and 4 fields); symbolic tolerance in [1e-6,1e-2], symbolic right-hand side scale, initial guess scale, matrix scale and up to 6 element weights (all right-hand side and guess entries on the 1-unknown grid); every number of iterations until convergence or the limit. Outside: larger systems, rounding-limited convergence."),
    "C07": dict(harness="c_newton.cpp", jobs=[J("h_newton", dim=2, nlat=k) for k in (99, 0, 1, 3, -1)] + [J("h_newton", dim=3, nlat=k) for k in (2, -1, 101, 202)] + [J("h_pub", harness="c_pub.cpp", dim=2, nx=3, ny=3), J("h_pub", harness="c_pub.cpp", dim=3, nx=3, ny=3, nz=3, steps=1)], thorough=[J("h_newton", dim=d, nx=3, ny=2, nlat=k) for d in (2, 3) for k in (0, 5, 39, 40, -1, 105, 205)], covers=["newton", "converged", "no correction needed", "several corrections", "iteration limit", "public solve"],
        bounds="the residual norm after each correction (in [0,1]), every correction component and the initial displacement symbolic; all 41 possible numbers of corrections followed by a second solve; yielding reported never, always, once, from or up to a given evaluation; the assembly and the linear solver are cut and replaced by arbitrary ones. A residual norm exactly equal to the tolerance is left out. Nothing cut: one or two solves of elastic cells with one free node, stiffness scale and strain amplitude symbolic."),
    "C08": dict(harness="c_plast.cpp", jobs=pubh([(1, 6, KA), (1, 9, {})]) + [J("h_return", mask=m, hmask=h, gp=g, nx=a) for m, h, g, a in [(63, 0, 5, 2), (63, 63, 5, 2), (7, 7, 0, 3), (56, 56, 7, 2)]] + [J("h_idem", mask=m) for m in (63, 8, 7)] + [J("h_return", mask=63, hmask=63, gp=2, which=1, symE=0)],
        thorough=[J("h_return", mask=m, hmask=h, symnu=1) for m, h in [(63, 0), (7, 7), (56, 56)]] + [J("h_return", mask=63, hmask=63, gp=g) for g in (0, 1, 3, 4, 6)], covers=["plastic step", "elastic step", "idempotent after flow", "history"],
        bounds="one integration point, all six strain components and all six plastic strain components (traceless) in [-1,1] and the hardening variable in [0,10] symbolic; E in [1,1e12], yield stress in [1e-3,1e10], hardening modulus in [0,1e12] symbolic, nu = 0.25 (symbolic in the thorough tier). Outside: other nu in the quick tier, rounding at the yield surface."),
    "C09": dict(harness="c_hist.cpp", jobs=hist([(1, 0, dict(symSy=1)), (1, 5, {}), (2, 0, dict(symSy=1)), (2, 1, {}), (2, 10, {}), (2, 55, dict(maxup=1)), (2, 35, dict(sg=11, maxup=1)), (2, 0, dict(comp=1, ny=3)), (2, 0, dict(again=1)), (2, 11, dict(comp=2, ny=4, maxup=1))])
            + hist([(2, 11, dict(KA, maxup=1)), (2, 66, dict(KA, maxup=1)), (2, 77, dict(KA, maxup=1)), (2, 88, dict(KA, maxup=1, symSy=1)), (3, 111, dict(maxup=1)), (3, 666, dict(KA, maxup=1)), (3, 888, dict(KA, maxup=1, sg=121)), (2, 67, dict(maxup=1)), (2, 77, dict(comp=2, ny=3, maxup=1)), (2, 66, dict(comp=2, ny=3, maxup=1)), (1, 1, dict(hold=1)), (2, 0, dict(hold=1, maxup=1)), (2, 66, dict(KA, hold=1, maxup=1))])
            + [J("h_book", harness="c_book.cpp", **k) for k in (dict(np=1, steps=3, neg=1, lin=1), dict(np=2, steps=2, lin=1, maxup=2), dict(np=2, steps=3), dict(np=2, steps=2, tn=1, ny=3, maxup=2), dict(np=2, steps=2, symid=1))],
        thorough=hist([(3, 777, dict(KA, maxup=1)), (4, 1111, dict(maxup=1)), (4, 6666, dict(KA, maxup=1, sg=1212)), (3, 176, dict(maxup=1)), (3, 111, dict(comp=2, ny=3, maxup=1))]), covers=["history", "elastic unloading with history", "reloading", "bookkeeping", "elastic step with history"],
        bounds="1 to 3 loading steps (thorough: 4) along fixed strain directions with symbolic amplitude in [-0.1,0.1], 0, 1 or 2 commits chosen freely after each step, one or two plastic materials or plastic layer in an elastic matrix, with and without hardening, symbolic yield stress in some instances; 2x2x2 to 2x4x2 nodes (every node prescribed). States within 0.1% of the yield surface are left out. Bookkeeping around an arbitrary solve (the Newton solve cut and replaced by one that reports yielding as it likes and leaves arbitrary trial histories): 1 or 2 points, 2 or 3 steps, 0 to 2 commits after each. Outside: longer histories, arbitrary directions, grids with free nodes with real plasticity."),
    "C10": dict(harness="c_ids.cpp", jobs=[J("h_ids", np=n, lin=l, nx=a, ny=3, nz=2) for n, l, a in [(1, 0, 2), (2, 0, 2), (2, 1, 3), (3, 1, 2), (3, 0, 2)]] + [J("h_ids", np=2, dim=2, nx=2, ny=3, lin=l) for l in (0, 1)] + [J("h_latest", nx=2, ny=3, nz=2, lin=l) for l in (0, 1)] + [J("h_latest", dim=2, nx=2, ny=4, lin=l) for l in (0, 1)]
            + [J("h_points", harness="c_hist.cpp", np=n, steps=s, dirs=d, order=o, sg=g) for n, s, d, o, g in [(2, 1, 0, 0, 0), (2, 1, 0, 1, 0), (2, 2, 1, 1, 1111), (3, 1, 0, 1, 0), (3, 2, 0, 0, 111111)]]
            + [J("h_book", harness="c_book.cpp", **k) for k in (dict(np=2, steps=3), dict(np=3, steps=2, add=1, rev=1), dict(np=2, steps=3, lin=1, add=1), dict(np=3, steps=2, symid=1), dict(np=2, steps=3, lin=1, add=1, symid=1), dict(np=2, steps=2, dim=2, nx=2, ny=3, lin=1))] + [J("h_many", nx=2, ny=3, nz=2, **k) for k in (dict(dim=2, lin=1, np=60), dict(dim=2, np=40), dict(lin=1, np=130, stride=1), dict(np=20, stride=-3))],
        thorough=[J("h_ids", np=4, lin=1, nx=2, ny=3, nz=2)] + [J("h_points", harness="c_hist.cpp", np=n, steps=s, dirs=d, order=o, sg=g) for n, s, d, o, g in [(2, 2, 6, 0, 0), (2, 2, 6, 1, 0), (3, 2, 6, 0, 111111)]], covers=["identifiers", "unknown point", "known point", "strain set twice", "two points", "same point", "points", "points in different states", "bookkeeping", "many points"],
        bounds="1 to 3 macroscopic points (thorough: 4) with symbolic identifiers anywhere in +-2e9 (equal or different), a symbolic queried identifier, symbolic strain amplitudes; plastic points: 2 or 3 points, 1 or 2 steps, symbolic amplitudes, free commits. 2D and 3D cells with every node prescribed. Arbitrary histories around a cut solve: 2 or 3 points, 2 or 3 steps, a point added late, any order, symbolic identifiers. 20 to 130 points with fixed identifiers, elastic. Outside: more points, longer sequences."),
    "C11": dict(harness="c_hist.cpp", jobs=hist([(1, 1, {}), (1, 6, KA), (1, 7, {}), (1, 8, KA), (1, 1, dict(symSy=1)), (1, 5, {}), (2, 11, KA), (2, 77, {}), (2, 66, {}), (1, 7, dict(comp=2, ny=3)), (1, 8, dict(comp=1, ny=3)), (2, 16, {})], "h_tangent") + [J("h_book", harness="c_book.cpp", **k) for k in (dict(np=1, steps=3, lin=1), dict(np=2, steps=2, tn=1, ny=3), dict(np=1, steps=3, tn=1), dict(np=1, steps=3, dim=2, nx=3, ny=2))],
        thorough=hist([(2, 88, KA), (2, 67, {}), (3, 111, {}), (2, 77, dict(comp=2, ny=3)), (1, 3, {}), (1, 4, {}), (1, 9, KA)], "h_tangent"), covers=["tangent", "tangent while flowing", "elastic tangent", "bookkeeping"],
        bounds="tangent after 1 or 2 steps (thorough: 3) along fixed directions with symbolic amplitude in [-0.1,0.1], optional commit between, with and without hardening, one or two materials, cells with every node prescribed; compared with the difference quotient of an independent reference to 1e-4 E. States within 0.1% of yielding left out. Outside: cells with free nodes while yielding (elastic ones are in C24)."),
    "C12": dict(harness="c_hist.cpp", jobs=hist([(1, 8, {}), (1, 9, KA), (1, 7, {}), (2, 88, {}), (2, 89, {}), (2, 98, KA), (2, 18, {}), (1, 8, dict(comp=1, ny=3)), (1, 9, dict(comp=2, ny=3)), (2, 88, dict(comp=2, ny=3, symtol=0)), (1, 2, {})], "h_shortcut") + [J("h_book", harness="c_book.cpp", **k) for k in (dict(np=1, steps=3, neg=1, lin=1), dict(np=2, steps=2, lin=1, maxup=2), dict(np=2, steps=2, dim=2, nx=2, ny=3, lin=1), dict(np=1, steps=3, dim=2, nx=2, ny=3, lin=1, neg=1))] + [J("h_infoseq", harness="c_out.cpp", dim=d, nx=2, ny=3, **k) for d, k in ((3, {}), (2, dict(steps=3, both=0, add=2)), (3, dict(nl=1, both=0)))],
        thorough=hist([(3, 888, {}), (2, 99, KA), (2, 88, dict(comp=1, ny=3))], "h_shortcut"), covers=["shortcut", "shortcut past the yield limit", "history disables the shortcut", "above the tolerance", "bookkeeping"],
        bounds="1 or 2 steps (thorough: 3) with symbolic amplitude in [-0.1,0.1] along fixed directions, symbolic user tolerance in [1,1e7], optional commit, one or two materials. Sequences of up to 3 steps of 1 or 2 points, 2D and 3D, with the Newton solve replaced by one that reports yielding, iteration counts and residual norms as it likes; what the information files then say. Invariants within 0.1% of the tolerance left out."),
    "C13": dict(harness="c_geom.cpp", jobs=pub(13) + grid2([(2, 2), (3, 4), (4, 3), (6, 5)], "h_geom", type=1) + grid3([(2, 2, 2), (3, 4, 2), (2, 5, 3)], "h_geom", type=1) + grid2([(2, 2), (3, 3), (3, 4), (5, 4)], "h_geom", type=0, mt0=1, mt1=0) + grid3([(2, 2, 2), (3, 3, 3), (3, 4, 2), (4, 3, 4)], "h_geom", type=0, mt0=1, mt1=1) + grid3([(5, 5, 5), (7, 7, 7)], "h_geom", type=0, symgeo=0) + grid2([(11, 12), (3, 24)], "h_geom", type=1) + grid3([(4, 9, 3), (3, 20, 2)], "h_geom", type=1) + grid2([(16, 2), (2, 16)], "h_geom", type=0) + grid3([(2, 2, 16), (16, 2, 2), (2, 16, 2)], "h_geom", type=0),
        thorough=grid2([(7, 7), (5, 8)], "h_geom", type=1) + grid2([(5, 5), (6, 4)], "h_geom", type=0) + grid3([(4, 4, 4), (5, 4, 3)], "h_geom", type=0, symgeo=0) + grid3([(3, 6, 3)], "h_geom", type=1), covers=["geometry", "two materials", "no inclusion", "public output"],
        bounds="2D grids to 11x12/3x24 (layer) and 5x4/16x2 (inclusion), 3D grids to 4x9x3/3x20x2 (layer), 4x3x4 and 16 nodes in a direction (inclusion) and 7x7x7 nodes (inclusion with fixed lengths); cell lengths in [1/4,4], inclusion radius or layer height in [0,5], all material constants symbolic."),
    "C14": dict(harness="c_life.cpp", jobs=[J("h_life", ops=3), J("h_life", ops=4, nid=1), J("h_life", ops=3, dim=2, pl=0), J("h_life", ops=3, lin=1, pl=1, dir=8)] + [J("h_life", seq=s, ops=len(str(s))) for s in (1121216, 4122125, 2125212)] + [J("h_life", seq=416523121, ops=9, mix=1, ny=3), J("h_life", seq=46523121, ops=8, mix=2, ny=3)] + [J("h_shapes", dim=2, nx=a, ny=b, out=o) for a, b, o in ((2, 2, 1), (5, 2, 1), (2, 6, 1), (3, 3, 1), (4, 3, 0), (5, 4, 0))] + [J("h_shapes", dim=3, nx=a, ny=b, nz=d, type=t) for a, b, d, t in ((2, 2, 2, 1), (5, 2, 3, 0), (2, 4, 3, 1), (3, 3, 3, 1), (3, 2, 5, 0), (4, 3, 3, 0))] + [J("h_book", harness="c_book.cpp", **k) for k in (dict(np=2, steps=2, lin=1, heap=1), dict(np=1, steps=3, heap=1))],
        thorough=[J("h_life", ops=4, nid=2), J("h_life", ops=5, nid=1, pl=0, dim=2), J("h_life", ops=4, lin=1, dir=8, nid=1)] + [J("h_shapes", dim=3, nx=3, ny=4, nz=4, type=0), J("h_shapes", dim=2, nx=6, ny=6)], covers=["lifecycle", "shapes", "bookkeeping"],
        bounds="every sequence of 3 or 4 public calls (thorough: 5) over 7 operations and up to two points, some sequences of 7 to 9, all plastic or half elastic cells, with symbolic loads in [0,0.1] through yielding; construct/solve/write/destroy on 2D grids to 5x4 and 3D grids to 4x3x3; heap balance after 2 or 3 steps of 1 or 2 points around an arbitrary (cut) Newton solve. Every access in the executed code is bounds- and lifetime-checked, every use of an undefined value that reaches a decision or a result is flagged, heap balance compared at the end. Outside: out-of-memory, invalid arguments."),
    "C15": dict(harness="c_out.cpp", jobs=[J("h_vtu", dim=2, nx=a, ny=b) for a, b in ((2, 2), (3, 2), (2, 4), (4, 3))] + [J("h_vtu", nx=a, ny=b, nz=d, type=t, symgeo=g) for a, b, d, t, g in ((2, 2, 2, 1, 1), (3, 2, 2, 1, 1), (2, 3, 2, 0, 1), (2, 2, 4, 1, 1), (3, 3, 3, 0, 0), (4, 3, 2, 1, 0), (3, 3, 5, 1, 0))] + [J("h_vtu", ts=-1, id=123456), J("h_vtu", dim=2, nx=8, ny=9, symgeo=0), J("h_vtu", nx=5, ny=5, nz=4, symgeo=0, type=0)]
            + [J("h_outhist", harness="c_outhist.cpp", **k) for k in (dict(), dict(ny=3), dict(nx=3, second=1), dict(two=1, dir=6, dirb=7), dict(after=1), dict(after=1, ny=3), dict(Ka=500000, dir=8, second=1), dict(mix=1, ny=3), dict(mix=2, ny=3, after=1))] + [J("h_outfree", harness="c_outfree.cpp", **k) for k in (dict(dim=2, nx=3, ny=3, type=1), dict(dim=2, nx=4, ny=3, type=0, lin=1, rev=1), dict(dim=2, nx=3, ny=4, solve=0), dict(dim=3, nx=3, ny=3, nz=3, type=1, lin=1, rev=1), dict(dim=3, nx=4, ny=3, nz=3, type=0, lin=1), dict(dim=3, nx=3, ny=3, nz=3))],
        thorough=[J("h_outfree", harness="c_outfree.cpp", dim=2, nx=5, ny=5, type=0), J("h_outfree", harness="c_outfree.cpp", dim=3, nx=4, ny=4, nz=3, lin=1)] + [J("h_vtu", nx=4, ny=4, nz=4, type=0, symgeo=0), J("h_vtu", dim=2, nx=6, ny=5, symgeo=0)] + [J("h_outhist", harness="c_outhist.cpp", **k) for k in (dict(ny=4, after=1), dict(ny=4, second=1), dict(two=1, ny=3))], covers=["vtu", "output", "output with history", "output of a relaxed cell"],
        bounds="2D grids to 8x9 and 3D grids to 5x5x4 nodes with symbolic nodal fields, element fields, hardening variables and plastic strain amplitude; output after 1 or 2 plastic steps of one or two points with symbolic amplitudes and optional commit; elastic cells with free nodes (2D to 4x3, 3D to 4x3x3) against their equilibrium solution. Numbers are compared before decimal rounding, with at least six digits requested."),
    "C16": dict(harness="c_out.cpp", jobs=[J("h_info", dim=d, nx=2, ny=3, np=n, lin=l, pre=p) for d, n, l, p in ((3, 1, 0, 0), (3, 2, 0, 1), (3, 2, 1, 1), (2, 2, 0, 1), (2, 3, 1, 0))] + [J("h_info", dim=3, nx=2, ny=3, np=2, lin=0, prior=1), J("h_info", dim=2, nx=2, ny=3, np=1, lin=1, prior=1, pre=1)] + [J("h_infoseq", dim=d, nx=2, ny=3, **k) for d, k in ((3, {}), (2, dict(both=0)), (2, dict(steps=3, both=0, add=2)), (3, dict(steps=3, add=9)), (3, dict(nl=1)), (3, dict(nl=1, both=0)), (3, dict(nl=1, steps=3, add=9)))] + [J("h_materials", dim=d) for d in (2, 3)] + [J("h_outhist", harness="c_outhist.cpp", **k) for k in (dict(), dict(ny=3), dict(second=1, dir=6), dict(mix=1, ny=3), dict(mix=2, ny=3))],
        thorough=[J("h_info", dim=3, nx=3, ny=2, np=3, lin=0, rows=3), J("h_info", dim=2, nx=3, ny=3, np=3, lin=0, rows=3)], covers=["info", "materials", "output with history", "info sequence", "shortcut after a solve", "full solve recorded", "point with history recorded"],
        bounds="1 to 3 points, 2 or 3 calls, symbolic strains, symbolic iteration counts in [0,40] and residual norms of every solve (Newton cut), points with and without history, points added late, a previous instance in the same folder, symbolic material constants; history file after plastic steps with symbolic amplitude."),
    "C17": dict(harness="c_wrap.cpp", jobs=[J("h_wrapper", ny=3, steps=1, dirs=1), J("h_wrapper", ny=2, steps=2, dirs=11), J("h_wrapper", dim=2, nx=2, ny=3), J("h_wrapper", dim=2, nx=3, ny=3, lin=1, type=0), J("h_wrapper", two=1, ny=2, dirs=6), J("h_wrapper", lin=1, nx=3, ny=3, nz=3, type=0, pl=0), J("h_wrapseq", ops=5), J("h_wrapseq", ops=6, nops=4, lin=1, dim=2, nx=2, ny=3), J("h_wrapfiles", ny=3), J("h_wrapfiles", dim=2, nx=3, ny=2), J("h_reconstruct"), J("h_reconstruct", times=3), J("h_reconstruct", dim=2, use=0)],
        thorough=[J("h_wrapseq", ops=5, nops=4, ny=3, dir=7), J("h_wrapseq", ops=6, dir=6), J("h_wrapper", ny=2, steps=2, dirs=66), J("h_wrapper", two=1, ny=2, dirs=7, steps=2)], covers=["wrapper", "known point", "unknown point", "with history", "wrapper files", "reconstruct", "wrapper sequence"],
        bounds="1 or 2 steps with symbolic amplitude in [-0.1,0.1], symbolic identifiers (set and queried), optional commit, 2D and 3D, layered and inclusion cells; every sequence of 5 or 6 solves of two points and commits, with a symbolic first load; up to 3 successive constructions."),
    "C18": dict(harness="c_field.cpp", jobs=pub(18) + grid2([(2, 2), (3, 3), (4, 3), (3, 4), (4, 4)], "h_average", what=2) + grid3([(2, 2, 2), (3, 2, 2), (2, 3, 4), (3, 3, 3), (4, 2, 3), (2, 4, 2), (4, 4, 4)], "h_average", what=2) + grid2(B2 + L2, "h_average", what=2) + grid3(B3 + L3, "h_average", what=2) + [J("h_plave", harness="c_flag.cpp", what=2, nx=a, ny=b, nz=c, node=n, **k) for a, b, c, n, k in [(2, 2, 2, 6, {}), (3, 2, 2, 4, {}), (2, 3, 2, 6, dict(comp=1, Ka=100000)), (2, 3, 2, 3, dict(comp=3)), (2, 3, 2, 11, dict(comp=2))]],
        thorough=grid2([(5, 4), (20, 20)], "h_average", what=2) + grid3([(4, 3, 3), (10, 10, 10)], "h_average", what=2), covers=["average", "plastic averages", "partly plastic", "public output"], bounds="as C01: 2D grids to 16x16/31x4 and 3D grids to 6x7x6 and 20 nodes in a direction (thorough: 20x20, 10x10x10) with symbolic lengths, E, nu and nodal displacements; partly plastic cells with one symbolic load."),
    "C19": dict(harness="c_flag.cpp", jobs=pubh([(1, 1, {}), (2, 10, {})]) + [J("h_flag", nx=2, ny=2, nz=2, node=n, nl0=n % 2) for n in range(8)] + [J("h_flag", nx=3, ny=2, nz=2, node=n) for n in (0, 5, 11)] + [J("h_flag", nx=2, ny=3, nz=2, node=n, comp=k) for n, k in ((0, 1), (3, 1), (11, 1), (11, 2), (5, 2), (8, 3), (0, 3))] + [J("h_flag", nx=2, ny=2, nz=2, node=0, hg=g) for g in (0, 3, 7)] + [J("h_flag", nx=3, ny=3, nz=3, node=13, timeout=250)] + [J("h_flag", nx=a, ny=b, nz=c, node=n) for a, b, c, n in ((6, 2, 2, 0), (6, 2, 2, 5), (2, 6, 2, 0), (2, 2, 6, 0), (2, 2, 6, 23))],
        thorough=[J("h_flag", nx=2, ny=2, nz=3, node=n) for n in range(12)] + [J("h_flag", nx=3, ny=3, nz=3, node=n) for n in (0, 26)], covers=["flag", "yield", "no yield", "history"],
        bounds="cells to 3x3x3 and 6 nodes in a direction, a symbolic displacement in [-0.1,0.1] of one node (each node of the smallest cell in turn), optional history at one integration point, all plastic, half plastic (either half) or two plastic materials. States within 1e-6 of yielding left out."),
    "C20": dict(harness="c_inv.cpp", jobs=[J("h_inv", dim=2), J("h_inv", dim=3)], covers=["invariants"], bounds="all components symbolic in [-100,100]."),
    "C21": dict(harness="c_flag.cpp", jobs=pubh([(2, 11, {}), (2, 66, KA)]) + [J("h_plave", what=4, nx=a, ny=b, nz=c, node=n, **k) for a, b, c, n, k in [(2, 2, 2, 0, {}), (2, 2, 2, 5, dict(neg=1)), (3, 2, 2, 4, {}), (3, 2, 2, 7, dict(comp=1)), (2, 3, 2, 6, dict(comp=1, Ka=100000)), (2, 2, 3, 4, dict(Ka=100000)), (2, 3, 2, 10, dict(comp=2)), (2, 3, 2, 3, dict(comp=3, Ka=100000))]], thorough=[J("h_plave", what=4, nx=3, ny=3, nz=2, node=n) for n in (0, 4, 13)], covers=["plastic averages", "partly plastic", "history"],
        bounds="cells to 3x2x2 nodes (thorough: 3x3x2), different fixed history at every integration point, symbolic displacement of one node in [0,0.1] or [-0.1,0], with and without hardening, an elastic layer or matrix, or a second plastic material."),
    "C22": dict(harness="c_field.cpp", jobs=pub(22, hom=1) + grid2([(2, 2), (3, 3), (4, 3), (3, 4), (4, 5), (5, 4)], "h_patch") + grid3([(2, 2, 2), (3, 2, 4), (2, 3, 4), (3, 3, 3), (4, 4, 4), (3, 4, 5)], "h_patch") + grid2(B2 + H2, "h_patch") + grid3(B3 + H3, "h_patch"), thorough=grid2([(6, 6)] + X2[1:], "h_patch") + grid3([(4, 5, 4), (5, 5, 5)] + X3[1:], "h_patch"), covers=["patch", "public output"], bounds="2D grids to 20x20/31x4, 3D grids to 10x10x10 and 20 nodes in a direction (thorough: 100 and 60 nodes in a direction); strain, lengths, E and nu symbolic."),
    "C23": dict(harness="c_field.cpp", jobs=pub(23) + grid2([(2, 2), (3, 3), (4, 3), (3, 4), (4, 4), (8, 9)], "h_hill") + grid3([(2, 2, 2), (3, 3, 3), (4, 3, 3), (3, 4, 3), (3, 3, 4), (3, 3, 8), (4, 5, 4), (3, 3, 16), (16, 3, 3), (3, 16, 3)], "h_hill") + grid2([(3, 20), (20, 3)], "h_hill"), thorough=grid2([(12, 12)], "h_hill") + grid3([(5, 5, 6)], "h_hill"), covers=["hill", "public output"], bounds="2D grids to 8x9/20x3 and 3D grids to 4x5x4 and 16 nodes in a direction (thorough: 12x12, 5x5x6); strain, lengths, materials and every interior displacement symbolic."),
    "C24": dict(harness="c_full.cpp", jobs=[J("h_full", dim=2, nx=a, ny=b, lin=l, symE=e) for a, b, l, e in [(3, 3, 0, 0), (3, 3, 1, 1), (4, 3, 1, 0), (4, 4, 1, 0), (4, 3, 1, 1)]] + [J("h_full", dim=3, nx=a, ny=b, nz=c, lin=l, symE=e, type=ty) for a, b, c, l, e, ty in [(3, 3, 3, 0, 0, 1), (3, 3, 3, 1, 1, 1), (3, 3, 3, 0, 0, 0), (4, 3, 3, 1, 0, 1)]]
            + [J("h_relax", harness="c_relax.cpp", dim=2, nx=a, ny=b, type=ty, neg=ty) for a, b, ty in [(3, 3, 1), (4, 4, 0), (5, 4, 1), (6, 6, 0)]] + [J("h_relax", harness="c_relax.cpp", dim=3, nx=a, ny=b, nz=c, type=ty, neg=ty) for a, b, c, ty in [(3, 3, 3, 1), (4, 3, 3, 1), (4, 4, 3, 0), (3, 3, 5, 1), (4, 4, 4, 0)]],
        thorough=[J("h_relax", harness="c_relax.cpp", dim=2, nx=8, ny=7, type=1), J("h_relax", harness="c_relax.cpp", dim=3, nx=5, ny=4, nz=4, type=1)] + [J("h_full", dim=2, nx=5, ny=5, lin=1, symE=1), J("h_full", dim=3, nx=4, ny=4, nz=4, lin=1, type=1)] + [J("h_relax", harness="c_relax.cpp", dim=3, nx=4, ny=3, nz=3, type=0, dir=d) for d in range(5)], covers=["full solve", "relax"],
        bounds="cells with free nodes: 2D grids to 6x6 and 3D grids to 4x4x4 nodes, layered and inclusion cells with a stiffness ratio of 10, fixed geometry and strain direction; symbolic stiffness scale E in [1e7,1e9] and strain amplitude in [1e-3,0.5] of either sign. Tolerances follow the solver's absolute residual tolerance. Outside: other ratios, E below 1e7 (there the absolute tolerance limits accuracy), plastic cells with free nodes."),
    "C25": dict(harness="c_inst.cpp", jobs=[J("h_instances", timeout=400, dir=1, kind=0, lo=10), J("h_instances", dir=6, kind=1), J("h_instances", dir=7, kind=2), J("h_instances", dir=8, kind=2, lin=1)] + [J("h_free", harness="c_free.cpp", kind=k, lin=l) for k, l in ((0, 0), (0, 1), (1, 0), (2, 1))], thorough=[J("h_instances", dir=1, kind=0), J("h_instances", dir=6, kind=0, lo=10)], covers=["instances", "free instances"],
        bounds="two instances with different grids and materials (two plastic 3D cells, a 2D elastic and a 3D plastic one, or two 2D elastic ones on either path), all 924 interleavings of six calls each, symbolic load of the first instance. Two elastic composite cells with free nodes (2D 3x3 and 3x4, 3D 3x3x3), all 70 interleavings of construct, two solves, query and destroy."),
}
