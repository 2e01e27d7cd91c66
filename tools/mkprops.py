#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Run by hand after editing; not part of any check."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":m,"where":", ".join(files[:3])} for m in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Patch update is the conservative flux difference, and nothing else",
"Advancing a patch by one conservative step in one direction sets every cell of the patch to its old value plus dt/dx times (flux through its lower face minus flux through its upper face), for every conserved variable, every direction, every patch shape and every dt and dx. Consequently the total of each conserved variable over the patch changes only by the two boundary fluxes. Cells outside the updated patch and the flux data are left untouched.",
["inputs","configurations"],"all cell and flux values, dt, dx>0; patch sizes 1..17 cells along the vectorised axis, 1-3 space dimensions, every direction, all execution modes",
"the existing tests use two 1D sizes with one concrete data set",
["src/HyperbolicPatchIntegrator.cpp","include/fub/HyperbolicPatchIntegrator.hpp"],
["row-wise update kernels for sequential and vectorised execution, with a vector body and a scalar tail"],
["next-state patch after one conservative update"])
p("C02","Sequential and vectorised execution compute the same patch results",
"For every patch and every data set, filling the numerical fluxes of a patch, computing the largest stable time step of a patch and completing conserved data on a patch give the same result whether the sequential or the vectorised execution mode is chosen. This holds for every patch length, including lengths that are not a multiple of the vector width.",
["inputs","configurations"],"all cell values; row lengths below, at and above the vector width; all first- and second-order flux methods with both execution modes for advection, Burgers, shallow water and perfect gas",
"tests compare one method on one data set; a wrong tail or shifted stencil needs particular lengths and values",
["include/fub/flux_method/FluxMethod.hpp","include/fub/CompleteFromCons.hpp","include/fub/StateArray.hpp"],
["row loops with load of full chunks and a partial tail chunk; separate scalar and array implementations"],
["flux arrays and stable time step of a patch"])
p("C03","Every face flux is computed from exactly its own stencil",
"When numerical fluxes are computed for a patch, the flux at each face equals the single-face numerical flux of precisely the cells in that face's stencil, in order from lower to upper along the sweep direction, with the same dt and dx for every face. The stable time step of a patch is the minimum of the single-stencil stable time steps over every stencil contained in the given cells. Every face of the output is written and nothing else is.",
["inputs","configurations"],"an arbitrary (symbolic, uninterpreted) single-face flux and stable-dt function, all stencil widths 2 and 4, every direction in 1-3D, patch lengths around the vector width",
"tests never observe which cells feed which face",
["include/fub/flux_method/FluxMethod.hpp","include/fub/ForEach.hpp","include/fub/PatchDataView.hpp"],
["ForEachIndex/ForEachRow traversal with shifted stencil views"],
["flux arrays of a patch; returned stable time step"])
p("C04","Physical fluxes are those of the governing equations",
"For every admissible state and every direction the analytic flux is the one of the conservation law: advection transports with its constant velocity, Burgers has u*u/2, shallow water carries momentum, momentum*velocity plus half g h^2 on the normal component, and the ideal-gas equations carry mass, momentum plus pressure on the normal component, total enthalpy and passively advected species. The flux in one direction does not depend on which execution variant (single cell, chunk of cells, masked chunk) computes it.",
["inputs","configurations"],"all admissible real-valued states, all directions and ranks, all gas parameters",
"no test evaluates the shallow water or multi-dimensional fluxes at all",
["src/equations/Advection.cpp","src/equations/Burgers.cpp","src/equations/ShallowWater.cpp","src/equations/PerfectGas.cpp","src/equations/PerfectGasMix.cpp"],
["Flux() member functions of the equations"],
["flux returned for a state"])
p("C05","Thermodynamic completion is exact and idempotent",
"Completing a conserved state yields a complete state with the same conserved part and with pressure and speed of sound obeying the ideal-gas law; completing a primitive state (density, velocity, pressure) yields the matching momentum and energy; converting primitive to complete and back returns the input. Completing twice changes nothing, and the single-cell, chunk and masked-chunk variants agree on active lanes.",
["inputs","configurations"],"all admissible states with positive density and pressure, all gammas > 1, ranks 1-3, perfect gas and gas mixture",
"tests check a few concrete states in one dimension",
["src/equations/PerfectGas.cpp","src/equations/PerfectGasMix.cpp","include/fub/equations/EulerEquation.hpp","include/fub/CompleteFromCons.hpp"],
["CompleteFromCons/CompleteFromPrim/PrimFromComplete conversions"],
["complete state fields"])
p("C06","Numerical fluxes are consistent with the physical flux",
"Every numerical flux method applied to a stencil whose cells all hold the same admissible state returns exactly the physical flux of that state, for every dt and dx. This is what makes uniform flow a steady solution.",
["inputs","configurations"],"all admissible states; upwind/Godunov, HLL, HLLEM (with and without the Larrouturou modification) and MUSCL-Hancock variants, single-cell and chunk versions, ranks 1-3, every direction",
"no test evaluates consistency; multi-dimensional and transverse components are not exercised",
["include/fub/flux_method/HllMethod.hpp","src/equations/perfect_gas/HllemMethod.hpp","include/fub/flux_method/MusclHancockMethod.hpp","include/fub/flux_method/MusclHancockMethod2.hpp","include/fub/flux_method/GodunovMethod.hpp","src/equations/perfect_gas/MusclHancockPrimMethod.hpp"],
["ComputeNumericFlux of the flux methods"],
["numerical flux for a constant stencil"])
p("C07","Numerical fluxes respect mirror symmetry",
"Mirroring the stencil along the sweep direction (reversing the cell order and flipping the sign of the normal velocity) mirrors the numerical flux: the flux of normal momentum is unchanged and the fluxes of mass, energy, transverse momentum and tracers change sign. So left- and right-going waves are treated alike.",
["inputs","configurations"],"all pairs (first-order) and quadruples (second-order) of admissible states for HLL, HLLEM and MUSCL-Hancock fluxes of the gas and shallow-water equations",
"tests contain no mirrored pair of states",
["include/fub/flux_method/HllMethod.hpp","src/equations/perfect_gas/HllemMethod.hpp","include/fub/flux_method/MusclHancockMethod.hpp","src/equations/perfect_gas/EinfeldtSignalVelocities.hpp"],
["ComputeNumericFlux; signal velocities; slope limiters"],
["numerical flux of a mirrored stencil"])
p("C08","All space directions are treated alike",
"Relabelling the coordinate axes of all states relabels the result: physical fluxes, numerical fluxes, signal speeds and stable time steps in the y and z directions of a permuted state equal those in the x direction of the original state, with momentum components permuted accordingly. Rotating a state into a face-normal frame and back returns the state and never changes its scalar quantities or its kinetic energy.",
["inputs","configurations"],"all admissible states, 2D and 3D, each pair of directions, all unit normals",
"directional bugs only show in transverse components which the 1D tests never contain",
["include/fub/equations/EulerEquation.hpp","include/fub/equations/PerfectGas.hpp","src/equations/PerfectGas.cpp","src/equations/perfect_gas/HllemMethod.hpp"],
["direction-indexed component access; Rotate()"],
["fluxes, speeds and states under axis permutation"])
p("C09","Chunked and masked evaluation equal the single-cell evaluation",
"Evaluating a flux method or its stable time step on a chunk of cells gives in every lane exactly what the single-cell version gives for the data of that lane. With a mask, active lanes are unaffected by whatever data sits in inactive lanes.",
["inputs","configurations"],"all admissible lane data; HLL, HLLEM, MUSCL-Hancock and exact upwind methods, ranks 1-3, every direction",
"one test compares one method at random data; rank 3 and masked variants are never run",
["include/fub/flux_method/HllMethod.hpp","src/equations/perfect_gas/HllemMethod.hpp","src/equations/perfect_gas/EinfeldtSignalVelocities.hpp","include/fub/flux_method/MusclHancockMethod.hpp"],
["parallel scalar and array implementations of the same formulas"],
["flux and stable dt per lane"])
p("C10","Slope limiters are monotone and symmetric",
"Each limited slope vanishes at local extrema, never has the opposite sign of the one-sided differences, never exceeds twice (minmod: once) the smaller one-sided difference in magnitude, reproduces the exact slope for linear data, and is odd and mirror-symmetric. Single-value, chunked and masked evaluation agree.",
["inputs"],"all real triples of cell values and all chunk/mask combinations for the minmod, van Leer, upwind and central limiters",
"tests evaluate no limiter",
["include/fub/flux_method/MusclHancockMethod.hpp","include/fub/flux_method/Gradient.hpp","src/equations/perfect_gas/MusclHancockPrimMethod.hpp"],
["limiter kernels and difference operators"],
["limited slope"])
p("C11","Second-order reconstruction is conservative and reduces to first order",
"A MUSCL-Hancock flux whose slopes vanish (constant data or disabled slopes) equals the underlying first-order flux; with slopes, the two states handed to the first-order flux are the half-time evolved face values of the two cells adjacent to the face and of no other cells. Reconstruction along the sweep direction leaves passive transverse quantities consistent.",
["inputs","configurations"],"all stencil values, dt and dx; each reconstruction (conservative, primitive, characteristic) and limiter",
"tests evaluate no reconstruction",
["include/fub/flux_method/MusclHancockMethod.hpp","include/fub/flux_method/MusclHancockMethod2.hpp","include/fub/flux_method/Reconstruct.hpp","include/fub/flux_method/Gradient.hpp"],
["ComputeGradients / Reconstruct / ComputeNumericFlux"],
["states passed to the base method, resulting flux"])
p("C12","Signal speeds bracket the waves of both states",
"For any two admissible states the lower estimate never exceeds the upper one, the lower estimate is at most the left state's slowest characteristic and the upper estimate is at least the right state's fastest characteristic. For equal states the estimates are exactly normal velocity minus and plus the speed of sound.",
["inputs","configurations"],"all pairs of admissible states, ranks 1-3, every direction, single-cell, chunked and masked versions",
"no test evaluates signal speeds",
["src/equations/perfect_gas/EinfeldtSignalVelocities.hpp","src/equations/euler_equations/EinfeldtSignalVelocities.hpp","src/equations/ShallowWater.cpp","src/equations/Burgers.cpp"],
["signal velocity functors"],
["pair of signal speeds"])
p("C13","HLL flux is upwind when supersonic and conservative in between",
"If all signals move right (left) the HLL flux is the physical flux of the left (right) state; otherwise it is the flux that conserves mass, momentum and energy over the Riemann fan, i.e. F + s*(q_star - q) computed from the left and from the right coincide. The intermediate state of the HLL Riemann solution carries exactly the same conserved totals.",
["inputs"],"all pairs of states and all signal speeds sL <= sR, all equations with an HLL flux",
"no test evaluates the HLL flux against its defining relations",
["include/fub/flux_method/HllMethod.hpp"],
["HllBase / HllArrayBase ComputeNumericFlux and SolveRiemannProblem"],
["HLL flux, HLL intermediate state"])
p("C14","The stable time step respects the CFL condition and is attained",
"The stable time step of every first- and second-order method is positive and is the cell width divided by the largest absolute signal speed found at any face of the stencil, so that no wave crosses more than one cell. It scales linearly with the cell width.",
["inputs"],"all admissible stencils and cell widths; advection, Burgers, shallow water, perfect gas with Godunov/HLL/HLLEM/MUSCL-Hancock methods",
"tests never check time-step sizes",
["include/fub/flux_method/GodunovMethod.hpp","include/fub/flux_method/HllMethod.hpp","include/fub/flux_method/MusclHancockMethod.hpp","src/equations/perfect_gas/HllemMethod.hpp"],
["ComputeStableDt"],
["returned stable dt"])
p("C15","Exact Riemann solutions satisfy their equations",
"The exact solvers for advection, Burgers and shallow water return the state that the self-similar entropy solution has on the face: the upwind state for advection, shock or rarefaction for Burgers, and for shallow water and the perfect gas a star state that is the left (right) state when all waves move right (left). Equal left and right states are returned unchanged.",
["inputs"],"all pairs of admissible states",
"one perfect-gas shock tube is tested",
["src/equations/Advection.cpp","src/equations/Burgers.cpp","src/equations/ShallowWater.cpp","src/equations/perfect_gas/ExactRiemannSolver.hpp"],
["SolveRiemannProblem of the ExactRiemannSolver specialisations"],
["state on the face"])
p("C16","Operator splitting advances each operator by exactly one step",
"Each splitting method applies its operators so that every operator's sub-steps add up to exactly the requested time step, in first-to-last order (first-order splitting) or palindromic order (both symmetric splittings). If any sub-step fails, no further sub-step is taken and that failure is returned.",
["inputs","fault_sequences","configurations"],"all dt, all failure positions, 1-3 operators, all three splitting methods",
"no test runs the splitting methods or fails a sub-step",
["src/split_method/GodunovSplitting.cpp","src/split_method/StrangSplitting.cpp","src/split_method/StrangSplittingLumped.cpp","include/fub/split_method/SplittingMethod.hpp"],
["Advance() recursion over operators"],
["sequence of operator calls and time steps"])
p("C17","Subcycling keeps all refinement levels synchronous and conservative",
"Advancing the hierarchy by dt advances level n by exactly dt in a number of equal steps that is the product of the refinement ratios above it, finest level first, each coarse level being regridded, synchronised and corrected by the accumulated fine fluxes only after its finer levels have reached its time. Without subcycling every level takes the same single step. The stable time step is the minimum over levels scaled by those ratios, and a failing level step stops the advance at once and reports a time step scaled to the coarsest level.",
["inputs","fault_sequences","configurations"],"hierarchies of 1-3 levels, refinement ratios 1-3, all dt, failure of any level step",
"no test drives a multi-level hierarchy",
["include/fub/solver/SubcycleFineFirstSolver.hpp","include/fub/solver/NoSubcycleSolver.hpp"],
["AdvanceLevel/AdvanceHierarchy recursion"],
["sequence of level-integrator calls with their time steps"])
p("C18","Dimensional splitting performs each directional sweep exactly once",
"One level step with dimensional splitting performs, per sweep of the chosen splitting method and in its order, exactly one flux computation, one stability check, one conservative update and one completion along that direction with the split time step, refreshes the boundary before a sweep that follows another one, and adds the fluxes used, scaled by the split time step, to the coarse-fine accounting. If a sweep's time step exceeds the stable step of that sweep on any process, the level step fails with a time-step error carrying the stable value and none of its cells is updated by that sweep. The stable time step of a level is the minimum over directions and processes. With a source term the time step is split between transport and source exactly as the splitting method prescribes and an error of either ends the step.",
["inputs","fault_sequences","configurations"],"all dt and stable-dt values per direction, ranks 1-3, odd and even cycles",
"no test runs the level integrator",
["include/fub/solver/DimensionalSplitLevelIntegrator.hpp","include/fub/solver/SplitSystemSourceLevelIntegrator.hpp"],
["AdvanceLevelNonRecursively and ComputeStableDt"],
["sequence of integrator-context calls"])
p("C19","Simulations end exactly on time and recover from failed steps",
"The simulation driver never advances beyond the next output time or the final time, hits each of them exactly, never uses a step larger than the stable one times the CFL number, starts no step after the configured number of cycles, and stops only when the final time (up to the smallest time step) or the cycle limit is reached. A failed step leaves time and data as they were before the step and is retried with a step derived from the reported error; without a backup it ends the run. Outputs see completed steps only, are written when due and at the end, and never twice for the same step, failed steps included.",
["inputs","fault_sequences","histories"],"up to 4 steps with arbitrary stable time steps, failures, output times, final time and cycle limits",
"no test runs the driver",
["include/fub/RunSimulation.hpp","src/RunSimulation.cpp"],
["main loop of RunSimulation with backup and retry"],
["sequence of advance/output calls and simulation time"])
p("C20","Outputs fire exactly when scheduled",
"An output with given intervals or frequencies fires exactly at multiples of its frequencies, at the start, and within two smallest time steps after a multiple of an interval. Its next output time is the earliest coming multiple of an interval plus one smallest time step and strictly later than the current time, so that a driver which never steps past it fires exactly once per scheduled time. A collection of outputs reports the earliest of the next times and fires exactly those members that are due; built from options, members use the common schedule unless they have their own.",
["inputs","histories"],"all times, intervals, frequencies and cycle numbers, up to 3 outputs",
"no test exercises output scheduling",
["include/fub/output/OutputAtFrequencyOrInterval.hpp","include/fub/output/MultipleOutputs.hpp","include/fub/output/BasicOutput.hpp"],
["NextOutputTime, ShallOutputNow"],
["next output time and fired outputs"])
p("C21","Index boxes, strides and sub-views address exactly the right cells",
"A sub-view, slice, shifted or shrunk view over an index box refers to exactly the elements of the parent view with the corresponding indices: no index of the box is lost, none outside is reachable, distinct indices map to distinct elements, and all stay inside the parent's storage. A sub-view of an empty box or range is empty and keeps the box that was asked for. Layouts with any extents and strides compute the documented offset and compare equal exactly if they address alike. Iterating rows visits every row of a view once and none of an empty view. Span sub-ranges obey the same law.",
["inputs","configurations"],"all extents, origins and strides up to bounded size, ranks 1-4; all offsets and counts of spans",
"tests sample a few static extents",
["include/fub/core/mdspan.hpp","include/fub/core/span.hpp","include/fub/PatchDataView.hpp"],
["mapping arithmetic of mdspan layouts, subspan, PatchDataView::Subview, span::first/last/subspan"],
["element addressed for an index"])
p("C22","Loading and storing states is a faithful gather and scatter",
"Loading a cell (or a chunk of consecutive cells, or a partial chunk) from patch data yields exactly the stored values of every variable and component of those cells, storing writes exactly those and no other memory, and loading after storing returns what was stored. Traversing an index box visits every index exactly once.",
["inputs","configurations"],"all values, all positions, partial chunk sizes 0..width, ranks 1-3, all equations' variable layouts",
"tests load one state from the beginning of an array",
["include/fub/State.hpp","include/fub/StateArray.hpp","include/fub/StateRow.hpp","include/fub/ForEach.hpp"],
["Load/Store/LoadN/StoreN, view pointers, ForEachIndex"],
["memory touched and state contents"])
p("C23","Reflecting walls mirror the interior exactly",
"Filling ghost cells at a reflecting wall copies into each ghost cell the interior cell at the mirrored distance from the wall with the normal momentum negated and everything else unchanged, for both sides and all directions; interior cells are untouched. Reflecting a state about any unit normal reverses the normal part of its momentum and preserves mass, momentum along the wall, energy, pressure, species and scalars, and doing it twice returns the state. Rotations from an axis to any unit vector take the one to the other, preserve lengths, and rotate the momentum of a state only.",
["inputs","configurations"],"all cell data, 1-3 ghost cells, both sides, each direction, ranks 1-2; all unit normals",
"no test fills a boundary",
["include/fub/boundary_condition/ReflectiveBoundary.hpp","src/boundary_condition/ReflectiveBoundary.cpp","include/fub/equations/EulerEquation.hpp"],
["ReflectIndex, Reflect, FillBoundary"],
["ghost cell values"])
p("C24","Refinement tags cover what needs refinement",
"Tag buffering marks every cell within the buffer width of a tagged cell, keeps every existing tag, marks nothing else and never writes outside the tag array; cut-cell tagging marks exactly the cells that are partially covered; the gradient detector tags exactly the cells whose relative one-sided difference of a monitored quantity exceeds its threshold, on whichever execution mode.",
["inputs","configurations"],"all tag patterns and data on small 1D-3D boxes, all thresholds",
"no test tags cells",
["src/tagging_method/TagBuffer.cpp","src/tagging_method/TagCutCells.cpp","include/fub/tagging_method/GradientDetector.hpp"],
["TagCellsForRefinement implementations"],
["tag arrays"])
p("C25","Cut-cell flux stabilisation blends fluxes by open area",
"At a cut face the stabilised flux is the area-weighted sum of the regular flux on the unshielded part and of the shielded fluxes on the shielded parts; faces without boundary keep the regular flux, closed faces carry none, and fractions which sum to one neither create nor lose a uniform flux. In the KBN method a shielded flux lies between the boundary flux of the shielded cell and the regular flux, according to the distance of the boundary (limited to the cell). Regular fluxes and the stable step of cut-cell patches come from the base method applied to each face's own stencil, volume fractions and opening, the boundary flux of a cut cell is the flux of its reference state with the normal momentum corrected by the pressure at the wall, and the reference state solves the reflected Riemann problem at the boundary. The same numbers result from the vector body and the tail of every row, and nothing outside the requested faces is written.",
["inputs","configurations"],"all fluxes, states, face and volume fractions, distances, unit normals and row lengths around the vector width",
"no test runs the cut-cell kernels",
["src/cutcell_method/KbnStabilisation.cpp","src/cutcell_method/MyStabilisation.cpp","include/fub/cutcell_method/KbnStabilisation.hpp"],
["ComputeStableFluxComponents, MyStab_ComputeStableFluxComponents", "KbnCutCellMethod::ComputeRegularFluxes, ComputeStableDt, ComputeBoundaryFluxes, PreAdvanceHierarchy"],
["stabilised flux arrays"])
p("C26","Cut-cell geometry queries are self-consistent",
"Normals, centroids and face positions reported for a cut cell are those of the cell itself: a cell which is not fully covered is cut exactly when its volume fraction lies below one or one of its faces is partially open; a covered cell is not; absolute centroids lie at the centre of the cell plus the relative offset times the cell width; normals point into the fluid; the unshielded centroid of a face is the middle of the part of the face which neither neighbour shields; the shielded parts reach from the face to the boundary; and the integration points of the h-grid are returned unchanged, in order.",
["inputs"],"all volume and face fractions, offsets, indices and cell widths in 2D and 3D",
"no test uses cut-cell data",
["src/CutCellData.cpp","include/fub/CutCellData.hpp"],
["IsCutCell, GetAbsoluteVolumeCentroid, GetBoundaryNormal"],
["returned geometry values"])
p("C27","Geometries report the correct side and distance",
"Geometries report signed distances. A half space reports the distance along its unit normal less its offset. A cone reports the Euclidean distance to its surface, negative inside (positive if constructed as an obstacle). A polygon reports the Euclidean distance to its nearest edge, positive inside and negative outside, whichever vertex is listed first, for either orientation and for any number of edges relative to the vector width. A tube is positive exactly inside of its cylinders between the mitre planes, a union reports the largest distance of its members. Inverting a geometry negates its distances, turning it about a point and revolving it about an axis move its distance field with it, and copies and clones keep the geometry.",
["inputs"],"all query points, half spaces, cones, rotations; polygons with up to 6 vertices",
"one polygon with few query points is tested",
["src/geometry/Halfspace.cpp","src/geometry/Polygon.cpp","src/geometry/Cone.cpp","src/geometry/ExpandTube.cpp","include/fub/geometry/Invert.hpp","include/fub/geometry/RotateAxis.hpp"],
["ComputeDistanceTo implementations"],
["signed distance"])
p("C28","Performance counters report exact statistics",
"For every sequence of recorded measurements a counter reports how many there were, their exact sum, minimum, maximum, mean, (population) variance and standard deviation, and a reset forgets them. Gathering over processes gives the root, and only the root, the minimum and maximum over all processes and the mean and variance of the per-process means. A registry keeps one counter per name, and a timer adds exactly one measurement of its lifetime to its counter, also when it was moved or when an error ends its block.",
["inputs","histories"],"all sequences of up to 4 measurements",
"no test uses counters",
["src/counter/Counter.cpp","src/counter/CounterRegistry.cpp","src/counter/Timer.cpp"],
["Counter::add and calculate_* functions"],
["statistics returned"])
p("C29","The pooling allocator never hands out live memory",
"For every sequence of allocations and deallocations, blocks handed out and not yet returned never overlap, are large enough and aligned as requested, keep their contents until freed, and all memory goes back to the upstream resource the way it was obtained when the allocator is destroyed.",
["histories"],"all sequences of up to 5 allocate/deallocate calls with symbolic choice of sizes and blocks",
"no test uses the allocator",
["src/PoolAllocator.cpp","include/fub/PoolAllocator.hpp"],
["free-list buckets over an upstream resource"],
["addresses returned"])
p("C30","Stiff integration either completes the interval or fails",
"The stiff ODE integrator integrates the given system from the start to the end of the requested interval with the user's right-hand side, also when it has to restart with smaller intervals, and returns normally only if the whole interval was covered exactly once; otherwise it throws. The tolerances, the first step, the feedback and the Jacobian are the user's, also on a restart and on a clone of the integrator.",
["inputs","fault_sequences"],"all interval lengths and all outcome sequences of the underlying integrator up to 4 calls",
"tests do not reach the restart path",
["src/ode_solver/RadauSolver.cpp"],
["retry logic around the underlying integrator call"],
["sequence of sub-interval integrations"])
p("C31","Stationary contacts and shear layers are kept exactly by the contact-resolving (HLLEM) fluxes",
"For two states with equal pressure and zero normal velocity the HLLEM flux, with and without Larrouturou upwinding, transports nothing: the fluxes of mass, energy, transverse momentum, species and passive scalars vanish and the normal momentum flux is the pressure (divided by the squared reference Mach number). This holds for every jump in density, transverse velocity and tracers, in every direction, for the single-cell and the chunk variant.",
["inputs"],"all pairs of admissible states with equal pressure and zero normal velocity, every gamma>1, every reference Mach number",
"tests run single concrete shock tubes and look at no face flux",
["src/equations/perfect_gas/HllemMethod.hpp","include/fub/equations/perfect_gas/HllemMethod.hpp"],
["anti-diffusive contact and shear correction of the HLL flux"],
["numerical flux of a face"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P))
