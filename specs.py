# What each check runs: units (one bitcode module each) and the runs on them.
SPECS = {}
MERGE = ["--merge"]  # join both sides of data-dependent branches instead of forking
def spec(pid, bounds, units, **kw): SPECS[pid] = dict(bounds=bounds, units=units, **kw)
def R(entry, tier="quick", budget=None, opts=None, dbudget=None, qtimeout=None, **params):
    r = dict(entry=entry, tier=tier, params=params)
    if budget: r["budget"] = budget
    if opts: r["opts"] = opts
    if dbudget: r["dbudget"] = dbudget
    if qtimeout: r["qtimeout"] = qtimeout
    return r

# ---------------------------------------------------------------- C01
_tags = ["update_seq", "update_simd", "update_openmp", "update_openmp_simd"]
c01 = []
for t in _tags:
    for n in (1, 2, 3, 5): c01.append(R(t, rank=1, n=n, comps=2))
    for d in (0, 1):
        for n in (2, 3): c01.append(R(t, rank=2, n=n, ny=2, dir=d, comps=2))
    for d in (0, 1, 2): c01.append(R(t, rank=3, n=3, ny=2, nz=2, dir=d, comps=2))
    for n in (4, 7, 8, 9, 16): c01.append(R(t, "thorough", rank=1, n=n, comps=3))
    for d in (0, 1): c01.append(R(t, "thorough", rank=2, n=5, ny=4, dir=d, comps=3))
    for d in (0, 1, 2): c01.append(R(t, "thorough", rank=3, n=4, ny=3, nz=3, dir=d, comps=5))
spec("C01", "patches of 1..5 (thorough 16) x 2..4 x 2..3 cells, 2..5 components, every direction, every execution tag; all cell, flux, dt>0, dx>0 values symbolic",
     {"main": dict(harness="c01.cpp", sources=["src/HyperbolicPatchIntegrator.cpp"], runs=c01)})

# ---------------------------------------------------------------- equations
EQSRC = ["src/equations/Advection.cpp", "src/equations/Burgers.cpp", "src/equations/ShallowWater.cpp", "src/equations/PerfectGas.cpp", "src/equations/PerfectGasMix.cpp"]
c04 = [R(p + e) for p in ("s_", "a_") for e in ("advection", "burgers", "shallow", "gas1", "gas2", "gas3")]
c04 += [R("m_gas%d" % n) for n in (1, 2, 3)] + [R("m_gas%d" % n, vacuum=1) for n in (1, 2, 3)]
for n in (1, 2, 3):
    for v in ("s_", "a_", "m_"): c04.append(R(v + "mix%d" % n, species=2, scalars=1)); c04.append(R(v + "mix%d" % n, "thorough", species=4, scalars=3)); c04.append(R(v + "mix%d" % n, species=0, scalars=0))
spec("C04", "one cell and one chunk of 8 cells per direction; every admissible real state, gamma>1, any masks and any inactive-lane data; 0..2 (thorough 4) species, 0..1 (3) passive scalars",
     {"main": dict(harness="c04.cpp", sources=EQSRC, runs=c04)})
c05 = []
for n in (1, 2, 3):
    for f in ("consScalar", "consArray", "primScalar", "primArray"): c05.append(R("%s_gas%d" % (f, n)))
    for vac in (0, 1): c05 += [R("consMasked_gas%d" % n, vacuum=vac), R("primMasked_gas%d" % n, vacuum=vac)]
    for f in ("consScalar", "consArray", "consMasked", "primScalar", "primArray", "kinScalar", "kinArray", "helpers"):
        c05.append(R("%s_mix%d" % (f, n), species=2 if f[-1] == "r" else 1, scalars=1))
        c05.append(R("%s_mix%d" % (f, n), "thorough", species=3, scalars=2))
        c05.append(R("%s_mix%d" % (f, n), "thorough", species=0, scalars=0))
    c05.append(R("consMasked_mix%d" % n, species=1, scalars=1, vacuum=1))
c05 += [R("cons_simple"), R("consArray_simple")]
spec("C05", "one cell and one chunk of 8 cells; every admissible real state (density, velocity, sound speed, tracers), gamma>1, any reference Mach number, any mask and any inactive-lane data; 1-3 dimensions; up to 2 (thorough 3) species and 1 (2) passive scalars",
     {"main": dict(harness="c05.cpp", sources=EQSRC, runs=[r for r in c05 if "Masked" not in r["entry"]]),
      "masked": dict(harness="c05.cpp", sources=EQSRC, chunk=2, runs=[r for r in c05 if "Masked" in r["entry"]])})

# ---------------------------------------------------------------- C03
c03, c03s = [], [] # chunks of 8 cells / chunks of 2 cells (several chunks and a tail in short rows)
for tag in (0, 1, 2, 3):
    q = "quick" if tag < 2 else "thorough"
    for f in ("flux", "dt"):
        for n in (1, 3, 8, 9, 16, 17): c03.append(R(f + "_burgers1", q if n in (1, 16) else "quick", tag=tag, n=n))
        for n in (1, 7, 10, 18): c03.append(R(f + "_burgers2", q if n != 10 else "quick", tag=tag, n=n))
        for n in (2, 4, 5, 6, 7): c03s.append(R(f + "_burgers1", tag=tag, n=n)); c03s.append(R(f + "_burgers2", tag=tag, n=n))
        for d in (0, 1):
            for e in ("adv1", "adv2", "shallow2", "gas2d1"):
                for n in (1, 2, 3, 4, 6, 7): c03s.append(R("%s_%s" % (f, e), q if n in (1, 4, 6) else "quick", tag=tag, n=n, dir=d, nx=n, ny=2))
            for n in (8, 9, 11): c03.append(R(f + "_adv1", q if n == 9 else "thorough", tag=tag, n=n, dir=d, nx=n, ny=2))
        for d in (0, 1, 2):
            c03s.append(R(f + "_gas3d1", tag=tag, n=2, dir=d, nx=2, ny=2, nz=2))
            for n in (3, 5): c03s.append(R(f + "_gas3d2", tag=tag, n=n, dir=d, nx=n, ny=2, nz=2))
            c03.append(R(f + "_gas3d2", "thorough", tag=tag, n=9, dir=d, nx=9, ny=3, nz=2))
        for n in (4, 5, 6, 15, 25): c03.append(R(f + "_burgers1", "thorough", tag=tag, n=n)); c03.append(R(f + "_burgers2", "thorough", tag=tag, n=n))
    c03.append(R("flux_adv1", q, tag=tag, n=9, dir=1, ny=3, extra=0)); c03s.append(R("flux_gas3d1", tag=tag, n=3, dir=2, ny=2, nz=2, extra=0))
spec("C03", "an uninterpreted single-face flux and stable-dt function; stencils of 2 and 4 cells; every direction in 1-3 dimensions; rows of 1..18 faces with chunks of 8 cells (thorough 25) and of 1..7 faces with chunks of 2 cells; all execution tags; all cell values, dt, dx symbolic",
     {"main": dict(harness="c03.cpp", sources=[], runs=c03), "w2": dict(harness="c03.cpp", sources=[], chunk=2, runs=c03s)})

# ---------------------------------------------------------------- C22
c22 = []
_e22 = {"burgers": 1, "adv": 2, "shallow": 2, "gas1": 1, "gas2": 2, "gas3": 3, "mix1": 1, "mix2": 2}
for e in _e22:
    for f in ("cellComplete", "cellCons", "pointer", "rows", "buffers", "arith"): c22.append(R("%s_%s" % (f, e), nx=3, ny=2, nz=2))
    for f in ("chunkComplete", "chunkCons"):
        for n in range(0, 9): c22.append(R("%s_%s" % (f, e), "quick" if n in (1, 5, 7, 8) or e in ("burgers", "gas2") else "thorough", len=n, ny=2, nz=1))
    for n in (1, 3, 8): c22.append(R("indexComplete_" + e, "quick" if n != 3 else "thorough", len=n, ny=2, nz=1))
c22 += [R("boxes%d" % n) for n in (1, 2, 3)] + [R("sboxes%d" % n) for n in (1, 2, 3)]
spec("C22", "patches of 3 x 2 x 2 cells with a rim of one cell, every cell position; chunks of 8 and partial chunks of 0..8 cells at every offset in a row; advection, Burgers, shallow water, perfect gas 1-3D, gas mixtures with 2 species and 1 passive scalar; index boxes with 0..3 cells per direction; all stored values symbolic",
     {"main": dict(harness="c22.cpp", sources=EQSRC, runs=c22)})

# ---------------------------------------------------------------- flux methods
PG = "src/equations/perfect_gas/"; PGM = "src/equations/perfect_gas_mix/"
_einf = [PG + "EinfeldtSignalVelocities_%dd.cpp" % n for n in (1, 2, 3)] + [PGM + "EinfeldtSignalVelocities_%dd.cpp" % n for n in (1, 2, 3)]
_hllem = [PG + "HllemMethod_%dd.cpp" % n for n in (1, 2, 3)] + [PGM + "HllemMethod_%dd.cpp" % n for n in (1, 2)]
METHODS = {1: "god_adv god_burgers hll_shallow mh_adv mhv_adv mh_burgers mhv_burgers mh_shallow mhv_shallow",
           2: "hll_gas1 hll_gas2 hll_gas3 hll_mix1 hll_mix2 hll_mix3", 3: "mh_gas1 mh_gas2 mhv_gas2 mh_gas3",
           4: "hllem_gas1 hllem_gas2 hllem_gas3 hllem_mix1 hllem_mix2", 5: "hlleml_gas1 hlleml_gas2 hlleml_gas3 hlleml_mix1 hlleml_mix2",
           6: "mh2c_gas1 mh2c_gas2 mh2p_gas1 mh2p_gas2 mh2p_gas3", 7: "mh2x_gas1 mh2x_gas2 mh2x_gas3 mh2p_mix1 mh2x_mix2"}
METHODS = {g: v.split() for g, v in METHODS.items()}
MSRC = {1: EQSRC, 2: EQSRC + _einf, 3: EQSRC + _einf, 4: EQSRC + _hllem, 5: EQSRC + _hllem, 6: EQSRC + _hllem, 7: EQSRC + _hllem}
def ndim(m): return 1 if m.endswith("burgers") else 2 if m.endswith(("adv", "shallow")) else int(m[-1])
def mix(m): return "mix" in m
def methodUnits(harness, runs, groups=range(1, 8), chunk8=True, **kw):
    """runs(method) -> list of R; one unit per group of methods"""
    u = {}
    for g in groups:
        rs = [r for m in METHODS[g] for r in runs(m)]
        if rs: u["g%d" % g] = dict(harness=harness, sources=MSRC[g], defs=["VPG=%d" % g], chunk=2, runs=rs, **kw)
        # thorough: the chunk entries once more with the default chunk of 8 cells
        w8 = [dict(r, tier="thorough") for r in rs if r["entry"].startswith("a_") and r["tier"] == "quick" and "hlleml" not in r["entry"]]
        if w8 and chunk8: u["g%d_w8" % g] = dict(harness=harness, sources=MSRC[g], defs=["VPG=%d" % g], runs=w8, **kw)
    return u

# ---------------------------------------------------------------- C06 / C31
def c06r(m):
    r = []
    for d in range(ndim(m)):
        for v in ("s_", "a_"):
            o = MERGE if v == "a_" and "hlleml" in m else None
            r.append(R(v + m, dir=d, opts=o, species=1, scalars=1))
            if mix(m):
                q = 0 if m.startswith("hll_") else 1
                r.append(R(v + m, "quick" if v == "s_" else "thorough", dir=d, opts=o, msq=q, species=2, scalars=1))
                r.append(R(v + m, "thorough", dir=d, opts=o, msq=q, species=3, scalars=2)); r.append(R(v + m, "thorough", dir=d, opts=o, species=0, scalars=0))
    return r
spec("C06", "one stencil of 2 or 4 equal cells (chunk variant: a chunk of 2, thorough also 8, different such stencils); every admissible real state, gamma>1, dt>0, dx>0, any reference Mach number for mixtures; every direction in 1-3 dimensions; 1-2 (thorough 0-3) species, 1 (0-2) passive scalars",
     methodUnits("c06.cpp", c06r))
def c31r(m):
    r = []
    for d in range(ndim(m)):
        for v in ("s_", "a_"):
            o = MERGE if v == "a_" and "hlleml" in m else None
            r.append(R(v + m, "quick" if v == "s_" or (d == 0 and "hlleml" not in m) else "thorough", dir=d, opts=o, species=1, scalars=1))
            if mix(m): r.append(R(v + m, "quick" if v == "s_" else "thorough", dir=d, opts=o, msq=1, species=2, scalars=1))
    return r
spec("C31", "two cells with equal pressure, zero normal velocity and otherwise arbitrary density, transverse velocity and tracers on each side (chunk variant: a chunk of 2, thorough also 8, such pairs); gamma>1, any reference Mach number for mixtures; every direction in 1-3 dimensions; the HLLEM flux with and without Larrouturou upwinding",
     methodUnits("c31.cpp", c31r, groups=(4, 5), chunk8=False))

# ---------------------------------------------------------------- C12
c12 = []
for e in ["shallow"] + [k + str(n) for k in ("gas", "mix", "igm") for n in (1, 2, 3)]:
    for v in ("s_", "a_", "m_"):
        if v == "m_" and e == "shallow": continue
        for d in range(2 if e == "shallow" else int(e[-1])):
            for q in (0, 1): c12.append(R(v + e, dir=d, equal=q, species=1, scalars=1))
for n in (1, 2, 3):
    for d in range(n): c12.append(R('m_igm%d' % n, dir=d, equal=0, full=1))
spec("C12", "two cells (chunk variants: a chunk of 2 such pairs, any mask and any data in inactive lanes); every admissible real state, gamma>1; shallow water, perfect gas and mixtures in 1-3 dimensions (reference Mach number one), the ideal gas mixture with arbitrary speed of sound; every direction",
     {"main": dict(harness="c12.cpp", sources=EQSRC + _einf + ["src/equations/ideal_gas_mix/EinfeldtSignalVelocities_%dd.cpp" % n for n in (1, 2, 3)], chunk=2, runs=c12)})

# ---------------------------------------------------------------- C11
c11 = []
for e in ("adv", "burgers", "shallow", "gas1", "gas2", "gas3", "mix1", "mix2"):
    for d in range(ndim(e)):
        for v in ("old_s", "old_a", "old_g", "flat"): c11.append(R("%s_%s" % (v, e), dir=d))
        for v in ("cons_s", "cons_a"): c11.append(R("%s_%s" % (v, e), dir=d, perdx=1))
        if mix(e): c11 += [R(v + "_" + e, dir=d, perdx=int(v[0] == "c"), msq=1, species=2) for v in ("old_s", "cons_s")]
for e in ("gas1", "gas2", "gas3", "mix1", "mix2", "mix3"):
    for d in range(ndim(e)):
        for v in ("prim_s", "prim_a", "char_s", "char_a"):
            c11.append(R("%s_%s" % (v, e), dir=d))
            if mix(e): c11.append(R("%s_%s" % (v, e), dir=d, msq=1, species=2))
u11 = {"main": dict(harness="c11.cpp", sources=EQSRC, defs=["VPG=1"], chunk=2, runs=c11)}
for n in (1, 2, 3):
    rs = []
    for d in range(n):
        rs += [R(v, dir=d) for v in ("pchar_s", "pchar_a", "pchar_m")]
        for k in (0, 1, 2, 3): rs += [R("pprim_a", dir=d, kind=k), R("pprim_m", dir=d, kind=k)]
    u11["pg%d" % n] = dict(harness="c11.cpp", sources=["src/equations/PerfectGas.cpp", PG + "MusclHancockPrimMethod_%dd.cpp" % n, PG + "MusclHancockCharacteristicMethod_%dd.cpp" % n],
                           defs=["VPG=2", "VPN=%d" % n], chunk=2, shadow="shadow11", runs=rs)
spec("C11", "one face with its 4-cell stencil (chunks of 2 such faces; masked chunks of 2 with any open faces and any data in closed lanes); arbitrary slopes for the conservative, primitive and characteristic reconstructions, an arbitrary (uninterpreted) limiter for the characteristic method of the perfect gas, locally linear, extremal and constant data for its primitive method; every admissible cell whose reconstructed states are admissible, dt>0, dx>0, gamma>1, any reference Mach number; every direction; 1-2 species, 1 passive scalar",
     u11)

# ---------------------------------------------------------------- C13
c13 = []
for e in ("adv", "burgers", "shallow", "gas1", "gas2", "gas3", "mix1", "mix2", "mix3"):
    for d in range(ndim(e)):
        for v in ("s_", "r_", "a_", "m_"):
            if (v == "a_" and e == "burgers") or (v == "m_" and e[:3] not in ("gas", "mix")): continue
            q = "quick" if v != "m_" or d == 0 else "thorough"
            c13.append(R(v + e, q, dir=d))
            if mix(e) and v != "m_": c13.append(R(v + e, "quick" if v != "a_" else "thorough", dir=d, msq=1, species=2))
def c13r(m):
    return [R(v + m, "quick" if m == "hllem_gas1" and v == "s_" else "thorough", dir=d, side=sd, msq=int(mix(m)), budget=300, opts=MERGE if v == "a_" and "hlleml" in m else None) for v in ("s_", "a_") for d in range(ndim(m)) for sd in (0, 1)]
u13 = {"main": dict(harness="c13.cpp", sources=EQSRC, chunk=2, runs=c13)}
u13.update(methodUnits("c13.cpp", c13r, groups=(4, 5), chunk8=False))
spec("C13", "one face between two cells (chunk variants: 2 faces, with any open faces and any data in closed lanes); the HLL flux, interface pressure and intermediate state for arbitrary signal speeds sL < sR and every admissible pair of states: advection, Burgers, shallow water, perfect gas and gas mixtures (any reference Mach number) in every direction; the HLLEM fluxes for supersonic flow to either side",
     u13)

# ---------------------------------------------------------------- C14
_masked14 = "god_adv god_burgers hll_gas1 hll_gas2 hll_gas3 hll_mix1 hll_mix2 hll_mix3 mh_gas1 mh_gas3 hllem_gas1 hllem_gas2 hllem_gas3 hllem_mix1 hllem_mix2 mh2c_gas1 mh2p_gas2".split()
def c14r(m):
    r, n, simple = [], ndim(m), m.endswith(("adv", "burgers", "shallow"))
    for d in range(n):
        r += [R("s_" + m, dir=d), R("s_" + m, dir=d, equal=1), R("a_" + m, dir=d, equal=1)]
        if mix(m) and not m.startswith("hll_"): r.append(R("s_" + m, dir=d, msq=1, species=2))
        if simple: r.append(R("c_" + m, dir=d))
        r.append(R("a_" + m, dir=d))
        if m in _masked14: r.append(R("m_" + m, "quick" if d == n - 1 else "thorough", dir=d))
        if m.startswith("hll_"): r.append(R("mock_" + m[4:], dir=d))
    return r
spec("C14", "one stencil of 2 or 4 admissible cells (chunk variants: a chunk of 2 stencils, any open faces, any data in closed lanes); every admissible real state with a non-zero largest signal speed, dx>0, gamma>1, any reference Mach number (HLL with mixtures: one); HLL additionally with arbitrary signal speeds sL < sR; every direction",
     methodUnits("c14.cpp", c14r, chunk8=False))

# ---------------------------------------------------------------- C16
c16 = [R(m, n=n, any=a) for m in ("godunov", "strang", "lumped") for n in (1, 2, 3, 4, 22, 33) for a in (0, 1)]
spec("C16", "1 to 4 operators, every real time step, no failure or a failure at any sub-step with any reported step; first-order splitting, both symmetric splittings, and each of them behind AnySplitMethod",
     {"main": dict(harness="c16.cpp", sources=["src/split_method/%s.cpp" % n for n in ("GodunovSplitting", "StrangSplitting", "StrangSplittingLumped")], runs=c16)})

# ---------------------------------------------------------------- C17, C18
import os
MPI = os.path.join(os.path.dirname(os.path.abspath(__file__)), "runtime/mpistub.cpp")
spec("C17", "hierarchies of 1 to 3 levels, refinement ratios 1 to 3 of every level, every real time step and every stable time step of each level and of the other ranks, no failure or a failure of any one level step with any reported step",
     {"main": dict(harness="c17.cpp", sources=[MPI, "src/ext/Mpi.cpp"], runs=[R(e, levels=n) for e in ("sub_advance", "no_advance", "sub_stable", "no_stable") for n in (1, 2, 3)] + [R("sub_advance", "thorough", budget=300, levels=3, maxratio=4)])})
spec("C18", "1 to 3 directions, first-order and both symmetric splittings, with and without a source term, odd and even cycles; every real time step and every stable time step per direction and of the other ranks; a failure at any sweep",
     {"main": dict(harness="c18.cpp", sources=[MPI, "src/ext/Mpi.cpp"] + ["src/split_method/%s.cpp" % n for n in ("GodunovSplitting", "StrangSplitting", "StrangSplittingLumped")],
                   runs=[R(e) for e in "lie1 lie2 lie3 strang2 strang3 lumped2 level1 level2 level3 source_lie source_strang source_lumped".split()])})

# ---------------------------------------------------------------- C19
spec("C19", "runs of up to 2 attempted steps (thorough: 3), with and without a backup, every final time, initial time, CFL number in (0,1], smallest step, stable and reported steps larger than the smallest step, next output times later than the current time, due or undue outputs after each step, any step failing, cycle limits none or 0 to 3",
     {"main": dict(harness="c19.cpp", shadow="shadowlog", sources=[MPI, "src/ext/Mpi.cpp", "src/counter/Timer.cpp", "src/counter/Counter.cpp", "src/RunSimulation.cpp"],
                   runs=[R("run", backup=1, steps=2), R("run", backup=0, steps=2)] + [R("run", "thorough", budget=500, backup=1, steps=3, maxcycles=k) for k in (-1, 2, 3)])})

# ---------------------------------------------------------------- C20
spec("C20", "one output with up to 2 frequencies (1 to 4) and 2 intervals (any positive reals larger than 4 smallest steps), times within the first 3 intervals, cycles to 1000; histories of up to 3 (thorough: 5) driver steps of any size larger than two smallest steps, limited by the next output time; collections of up to 3 members with any next times and any members due, missing members; collections built from options (option values held in C++ instead of Python)",
     {"main": dict(harness="c20.cpp", shadow="shadowpy", sources=[], runs=[R("schedule", freqs=f, intervals=i) for f, i in ((1, 0), (2, 0), (0, 1), (1, 1), (0, 2), (2, 2))] + [R("history", steps=n) for n in (1, 2, 3)] + [R("multiple", outputs=n) for n in (0, 1, 2, 3)] + [R("options"), R("history", "thorough", steps=5, budget=400)])})

# ---------------------------------------------------------------- C21
spec("C21", "index boxes with bounds in -50..50 and every index of a symbolic position, ranks 1 to 3, growing and shifting by up to 9; layouts with any extents and strides to 1000 and any indices, ranks 1 to 4; extents to 3 for uniqueness and ranges; sub-views of every sub-box (also empty) of boxes of up to 3 x 3 and 2 x 2 x 2 cells, 1-D at any origin in -50..50; slices of every combination of an index, a range (also empty) and all; spans of up to 6 elements with every offset and count",
     {"main": dict(harness="c21.cpp", sources=[], runs=[R(e) for e in "boxes1 boxes2 boxes3 same2 same3 moves1 moves2 moves3 left1 left2 left3 left4 right1 right2 right3 uleft2 uleft3 uright2 uright3 mixed views1 rows1 rows2 rows3 slices spans1".split()] + [R("views2", origin=0, n=3), R("views3", origin=0, n=2), R("uleft3", "thorough", n=5, budget=400), R("uright3", "thorough", n=5, budget=400), R("views2", "thorough", origin=0, n=4, budget=400), R("views2", "thorough", origin=1, n=1, budget=600)])})

# ---------------------------------------------------------------- C23
spec("C23", "1 to 3 ghost cells at both sides in every direction of patches with 2 or 3 cells transverse, whole or part of the wall; perfect gases (1-3 D) and mixtures (1-3 D, 2 species, 1 passive scalar), every value of the cells; reflections at any unit normal, rotations with any matrix, rotations from any axis to any unit vector",
     {"main": dict(harness="c23.cpp", sources=["src/boundary_condition/ReflectiveBoundary.cpp"] + EQSRC, runs=
       [R("fill_%s%d" % (e, n), dir=d, side=s, w=w, partial=p) for e in ("gas", "mix") for n in (1, 2, 3) for d in range(n) for s in (0, 1) for w in (1, 2, 3) for p in (0, 1) if (n > 1 or not p) and (e == "gas" or w == 2)]
       + [R("%s_%s%d" % (k, e, n)) for k in ("complete", "conservative") for e in ("gas", "mix") for n in (1, 2, 3)] + [R("primitive_gas%d" % n) for n in (1, 2, 3)]
       + [R("%s_%s%d" % (k, e, n)) for k in ("rcomplete", "rconservative") for e in ("gas", "mix") for n in (2, 3)]
       + [R("rotation%d" % n, dir=d, flip=f) for n in (2, 3) for d in range(n) for f in (0, 1)])})

# ---------------------------------------------------------------- C24
spec("C24", "tag buffers of width 1 and 2 on patches of up to 5, 3 x 2 (thorough 3 x 3) and 2 x 2 x 2 cells with every pattern of tags; cut cells with every volume fraction on patches of up to 3, 2 x 2 and 2 x 1 x 2 cells, volume fractions given on the same, a larger or a smaller box; gradient detectors with 1 or 2 conditions, any thresholds > 0 and any nonzero monitored values, single-cell mode on up to 3, 2 x 1 and 1 cells, array mode (chunks of 2) on rows of 1 to 5 cells, with and without volume fractions",
     {"main": dict(harness="c24.cpp", chunk=2, sources=["src/tagging_method/TagBuffer.cpp", "src/tagging_method/TagCutCells.cpp"] + EQSRC, runs=
       [R("buffer1", nx=n, w=w) for n in (1, 4, 5) for w in (1, 2)] + [R("buffer2", nx=3, ny=2), R("buffer2", nx=2, ny=3, w=2), R("buffer3", nx=2, ny=2, nz=2), R("buffer3", nx=3, ny=1, nz=2, w=2), R("buffer1", nx=4, values=2), R("buffer2", "thorough", nx=3, ny=3, budget=300), R("buffer2", "thorough", nx=4, ny=2, values=2, budget=300)]
       + [R("cut1", extra=x) for x in (-1, 0, 1)] + [R("cut2", nx=2, ny=2, extra=x) for x in (-1, 0, 1)] + [R("cut3", nx=2, ny=1, nz=2), R("cut3", nx=2, ny=2, nz=2, extra=-1)]
       + [R("array_u1", nx=n) for n in (1, 2, 3, 4, 5)] + [R("array_mass2", nx=n, ny=2) for n in (1, 2, 3, 4)] + [R("array_gas1", nx=3), R("array_gas3", nx=3, ny=1, nz=2)]
       + [R("scalar_u1", nx=3), R("scalar_mass2", nx=2, ny=1), R("scalar_mass2", nx=1, ny=2), R("scalar_gas1", nx=1), R("both_gas1", nx=2), R("scalar_gas3", nx=1, ny=1, nz=1)]
       + [R("scalar_u1", nx=2, volumes=1), R("scalar_mass2", nx=1, ny=1, volumes=1), R("scalar_gas1", nx=1, volumes=1)])})

# ---------------------------------------------------------------- C28
spec("C28", "up to 3 (thorough 4) measurements of -2^40..2^40 followed by a reset; gathers over 1 to 3 ranks with any values on the other ranks (MPI replaced by a stand-in); registries with 3 names and up to 4 requests; timers over a stand-in clock",
     {"main": dict(harness="c28.cpp", sources=["src/counter/Counter.cpp", "src/counter/CounterRegistry.cpp", "src/counter/Timer.cpp", MPI], runs=
       [R("local", n=n) for n in (1, 2, 3)] + [R("gather", n=n, ranks=r, rank=k, root=q) for n, r, k, q in ((0, 1, 0, 0), (2, 2, 0, 0), (2, 2, 1, 0), (2, 2, 1, 1), (1, 3, 0, 0), (1, 3, 2, 2), (1, 3, 1, 0))] + [R("registry"), R("statistics", n=1), R("statistics", n=2), R("timers"), R("local", "thorough", n=4, budget=300), R("gather", "thorough", n=2, ranks=3, budget=300), R("registry", "thorough", n=5, budget=300), R("statistics", "thorough", n=3, budget=300)])})

# ---------------------------------------------------------------- C29
spec("C29", "histories of up to 4 requests and returns (thorough 6) in any order with 2 sizes and 2 alignments, of up to 3 (thorough 4) with 4 sizes (1 to 40 bytes) and 4 alignments (1 to 32), with and without failing upstream requests; every content of the blocks",
     {"main": dict(harness="c29.cpp", sources=["src/PoolAllocator.cpp"], runs=
       [R("history", steps=n) for n in (1, 2, 3, 4)] + [R("history", steps=3, sizes=4, alignments=4), R("history", steps=3, faults=1), R("reuse"), R("history", "thorough", steps=6, budget=400), R("history", "thorough", steps=4, sizes=4, alignments=4, budget=400), R("history", "thorough", steps=4, faults=1, budget=400)])})

# ---------------------------------------------------------------- C30
spec("C30", "systems of 2 equations, every start time, interval, tolerance and first step, with and without feedback and Jacobian, on the solver and a clone; every sequence of outcomes of the Fortran integrator (replaced by a stand-in which evaluates the right-hand side, the feedback and the Jacobian once, and either completes its interval or stops at any time within it)",
     {"main": dict(harness="c30.cpp", sources=["src/ode_solver/RadauSolver.cpp", "src/ode_solver/OdeSolverFactory.cpp"], runs=[R("plain"), R("callbacks"), R("callbacks", jac=0), R("cloned")])})

# ---------------------------------------------------------------- C25, C26
spec("C25", "row kernels: rows of 1 to 5 faces (vector width 2: body, tail and both), 2-D and 3-D, every direction, all fluxes, fractions and offsets; base method: rows of 1 to 5 faces (chunks of 2), stencils of 2 and 4 cells, any face fractions >= 0 and any volume fractions; boundary: 1 or 2 cells, any unit normal, any Riemann solver (an uninterpreted function of both states), perfect gases and a mixture",
     {"main": dict(harness="c25.cpp", chunk=2, sources=["src/cutcell_method/KbnStabilisation.cpp", "src/cutcell_method/MyStabilisation.cpp", "src/CutCellData.cpp"] + EQSRC, runs=
       [R("stable%d" % n, my=m, dir=d, nx=x) for n in (2, 3) for m in (0, 1) for d in range(n) for x in (1, 2, 3, 4, 5) if n == 2 or x in (1, 2, 3)]
       + [R("uniform%d" % n, dir=d, mode=k) for n in (2, 3) for d in range(n) for k in (0, 1, 2)]
       + [R("regular_mass2", dir=d, nx=x, stable=s) for d in (0, 1) for x in (1, 2, 3, 4, 5) for s in (0, 1)] + [R("regular2_mass2", dir=d, nx=3, stable=s) for d in (0, 1) for s in (0, 1)]
       + [R("regular_gas3", dir=d, nx=3, ny=1, nz=1, stable=s) for d in (0, 1, 2) for s in (0, 1)] + [R("regular_gas3", "thorough", dir=d, nx=3, ny=2, nz=2, stable=s, budget=300) for d in (0, 1, 2) for s in (0, 1)]
       + [R("wall_%s" % e, what=w, dir=d, cells=2 if e == "gas2" else 1) for e, n in (("gas2", 2), ("gas3", 3), ("mix2", 2)) for w, d in [(0, 0)] + [(1, d) for d in range(n)]]
       + [R("wall_%s" % e, "thorough", what=w, cells=2, budget=300) for e in ("gas3", "mix2") for w in (0, 1)])})
spec("C26", "2-D and 3-D cut-cell data on 2 x 2 (x 2) cells with every value; any cell widths > 0; inner faces in both directions",
     {"main": dict(harness="c26.cpp", chunk=2, sources=["src/CutCellData.cpp"] + EQSRC, runs=[R(e) for e in "cut2 cut3 vectors2 vectors3 hgrid".split()] + [R(e, dir=d) for e in ("unshielded", "shielded") for d in (0, 1)])})

# ---------------------------------------------------------------- C27
_c27 = ["src/geometry/%s.cpp" % n for n in ("Cone", "ExpandTube", "Halfspace", "Polygon", "Union")]
spec("C27", "every half space, cone (radius and height > 0), inversion, turn and body of revolution, and every query point; closed polygons of 3 to 6 edges without horizontal edges and every axis-aligned box, listed from any vertex (chunks of 2; 3, 9 and 10 edges with chunks of 8), every triangle; tubes of 3 (thorough 4) points of which the first segment points up and the last down; unions of up to 3 members",
     {"main": dict(harness="c27.cpp", chunk=2, sources=_c27, runs=
       [R(e) for e in "halfspace invert rotate polymorphic".split()] + [R("triangle", case=k) for k in (0, 1, 2, 3)] + [R("polygon", edges=n, first=f, side=s) for n, f in ((3, 0), (3, 2), (4, 0), (5, 0), (5, 3), (6, 1)) for s in (0, 1)]
       + [R("box", first=f, clockwise=c) for f, c in ((0, 0), (1, 0), (2, 1), (3, 1))] + [R("cone", **{"in": i}) for i in (0, 1)] + [R("tube", points=3), R("tube", "thorough", points=4, budget=400), R("polymorphic", members=1)] + [R("box", "thorough", first=f, clockwise=c) for f, c in ((2, 0), (3, 0), (0, 1), (1, 1))]),
      "wide": dict(harness="c27.cpp", chunk=8, sources=_c27, runs=[R("polygon", edges=n, side=s) for n in (3, 9, 10) for s in (0, 1)])})
