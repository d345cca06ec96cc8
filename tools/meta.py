"""Writes properties.jsonl and MANIFEST.json from one table (run by hand)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RC = "reservoirflow/grids/regular_cartesian.py"
BO = "reservoirflow/models/black_oil.py"
FDM = "reservoirflow/solutions/numerical/fdm.py"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, level_note, technique):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, level_note=level_note, technique=technique))


prop(
    "C01", "Cell numbering, shapes and coordinates are one consistent bijection",
    "For every Cartesian grid, with or without boundary cells, cells are numbered once each in natural order (x fastest, then y, then z), every reported shape, count and index array agrees with that numbering, and id, (i,j,k) coordinates and array indices convert into each other without loss. "
    "Flow dimension and flow directions are exactly those with more than one cell, and boundary cells are added at both ends of exactly those directions. Asking other questions, or using other grids in between, never changes an answer.",
    ["inputs", "histories"], "every (nx, ny, nz), both array layouts, every accessor and output format, every order of queries on several live grids",
    "Tests look at a few 1D/2D/3D shapes and check printed examples; extents per axis, the collapsed layouts and the interleaving of cached queries on several grids are unbounded.",
    [RC], [("order, shapes and fshape", RC), ("id/coords/icoords conversion through the pyvista grid", RC)],
    ["get_cells_id", "get_cells_coords", "get_cell_id", "get_cell_coords", "get_cell_icoords", "get_shape", "get_fshape", "get_n"],
    "Random search against an independent numbering model; small and medium grids (up to about 80 cells per case).", "property-based testing against a reference numbering model (Hypothesis)",
)
prop(
    "C02", "Boundary cells and internal cells partition every cell array",
    "For every grid with at least one flow direction, the boundary cells reported are exactly the cells at the outer ends of the flow directions, and removing or extracting boundaries splits any per-cell array (ids, values or coordinates, flat or shaped) into internal and boundary entries that are disjoint, complete, and in natural order. The caller's data is not changed by splitting an array.",
    ["inputs"], "every grid shape and layout, any array of values or points, flat or shaped, every output format and side of removal",
    "Tests compare boundaries of a handful of shapes; values arrays, coordinates, layouts and one-sided removal over all shapes are not sampled.",
    [RC, "reservoirflow/utils/helpers.py"], [("remove_boundaries / extract_boundaries / get_boundaries", RC)],
    ["get_boundaries", "extract_boundaries", "remove_boundaries"],
    "Random search against set algebra on the numbering model.", "property-based testing against a set-partition oracle (Hypothesis)",
)
prop(
    "C03", "Neighbour and boundary relations are the face-sharing relation",
    "For every cell of every grid, the reported neighbours per direction are exactly the cells that share a face with it in that direction, the relation is symmetric, and a cell's boundaries are exactly its face neighbours that are boundary cells. Lookups by id and by coordinates and all output formats describe the same sets.",
    ["inputs", "histories"], "every cell of every grid shape, both lookup styles, with and without boundary cells, every output format, any query order",
    "Tests enumerate neighbours for a few fixed grids; the relation has to hold for every cell, shape, axis subset and query history.",
    [RC], [("get_cell_neighbors", RC), ("get_cell_boundaries", RC)],
    ["get_cell_neighbors", "get_cell_boundaries"],
    "All cells of small random grids, sampled cells of larger ones.", "property-based testing against a reference adjacency model (Hypothesis)",
)
prop(
    "C04", "Cell sizes, face areas, volumes and centres fit together",
    "For every grid, uniform or irregular, each cell's sizes are the ones given for its column, row and layer, its face areas and volume are the products of these sizes, volumes add up to the total, and centres are midpoints of cells stacked without gaps or overlaps. Whole-grid arrays, single-cell lookups by id or coordinates, and the exported pyvista grid agree with each other.",
    ["inputs", "histories"], "every grid shape with scalar or per-cell sizes in any direction, every accessor, layout and query order",
    "Tests sample a few grids with printed sizes; the product/stacking identities must hold for any list of sizes, any axis and for the internal sub-grid.",
    [RC], [("__calc_cells_d/A/V", RC), ("get_cells_center, get_corners, get_pyvista_grid", RC)],
    ["get_cells_d", "get_cells_A", "get_cells_V", "get_Vt", "get_cells_center", "get_pyvista_grid"],
    "Random search against products/cumulative sums computed independently; pyvista values are compared at single precision.", "property-based testing against reference geometry (Hypothesis)",
)
prop(
    "C05", "Cell properties read back what was last written",
    "After any history of setting permeability, porosity, depth or compressibility, for all cells or for one cell given by id or coordinates, every reading (whole array, internal part, shaped, single cell, or derived homogeneity, isotropy and transmissibility values) reflects exactly the last value written to each cell. Writes to one property, cell or grid never alter another, and rejected writes change nothing.",
    ["histories"], "every sequence of writes and reads on one or several live grids, any layout",
    "Tests construct a grid once and read it; nothing writes after a read, so stale cached values and aliasing between cells, properties and grids are invisible to them.",
    [RC, "reservoirflow/grids/grid.py"], [("set_prop / set_props / get_prop", RC), ("cached readers", RC)],
    ["set_prop", "set_props", "get_prop", "get_cells_k", "get_cell_k", "is_homogeneous", "is_isotropic", "get_cells_G", "get_cell_G"],
    "Stateful random histories (up to about 12 operations) against a dictionary model.", "model-based stateful property testing (Hypothesis)",
)
prop(
    "C06", "Transmissibility is the series-flow factor between face neighbours only",
    "For every grid, the geometric factor and transmissibility between two face neighbours equal the two half-cells in series (harmonic combination of size, area and permeability) in the chosen unit system, are positive and symmetric, and are zero between cells that do not share a face. Matrices (dense or sparse, with or without boundary cells, computed in bulk or cell by cell), diagonals and single-cell lookups agree.",
    ["inputs"], "every grid shape, irregular sizes, heterogeneous and directional permeability, every unit system and representation",
    "Tests use uniform permeability in 1D and a few 2D/3D cases, where every averaging formula gives the same number and row ends rarely matter.",
    [RC, BO], [("get_cell_G, get_cells_G and diagonals", RC), ("get_cell_trans, get_cells_trans", BO)],
    ["get_cell_G", "get_cells_G", "get_cell_trans", "get_cells_trans", "get_cells_trans_diag"],
    "Random heterogeneous grids, all cell pairs, relative tolerance 1e-10.", "property-based testing against an independent pairwise formula (Hypothesis)",
)
prop(
    "C07", "A solved time step satisfies the discretised flow equations",
    "For every well-posed single-phase problem (1D to 3D, homogeneous or not, with or without gravity, compressible or not, any mix of wells and boundary conditions), the pressures and rates of every time step are the solution of the textbook implicit block-centred equations for that problem, cell by cell. Nothing outside the internal cells, wells and conditioned boundaries takes part in the flow.",
    ["inputs", "configurations"], "every grid, fluid, well and boundary configuration with a unique solution, several consecutive time steps",
    "Tests reproduce a handful of textbook examples on tiny uniform 1D/2D grids; every other dimension, heterogeneity, gravity and constraint combination takes code paths no test compares with a solution.",
    [FDM, BO, RC], [("matrix assembly", FDM), ("boundary/well terms", FDM), ("accumulation term", BO)],
    ["model.solve", "model.run", "solution.pressures", "solution.rates"],
    "Random problems (up to about 30 cells, 6 steps) against an independent simulator written from the equations; ill-conditioned (cond > 1e9) cases are skipped and counted.", "differential property-based testing against an independent simulator (Hypothesis)",
)
prop(
    "C08", "Mass is conserved in every time step",
    "In every solved time step, what enters through wells and boundaries equals what is accumulated in the internal cells by compressibility (zero for incompressible systems), within solver precision, also cumulatively from the start. The material-balance error the software reports agrees with that balance and it warns exactly when the error exceeds the allowed threshold.",
    ["inputs", "histories"], "every problem and time step, for dense, sparse and iterative solution, including steps where wells switch constraint",
    "Tests call the balance check but never fail on it, and only on the few examples; leaks show only for particular dimension, heterogeneity and switching combinations.",
    [FDM, BO], [("check_MB", FDM), ("rates bookkeeping for wells and boundaries", FDM)],
    ["solution.rates", "solution.pressures", "solution.error", "check_MB"],
    "Balance recomputed from the grid, fluid and recorded histories of random runs.", "property-based testing of a conservation invariant (Hypothesis)",
)
prop(
    "C09", "Results do not depend on how the system is solved",
    "For any problem, dense and sparse storage, vectorised and symbolic assembly, threaded and sequential execution, and solving step by step or in one run give the same pressures, rates and well states. Every iterative solver either returns a solution of the same equations within its tolerance or reports failure; it never silently returns something else.",
    ["configurations", "schedules"], "every combination of sparse/vectorize/threading/isolver options, fixed or alternating between steps",
    "Tests compare a few of the combinations on one or two problems; options interact with dimension, wells that switch, and options that change mid-run.",
    [FDM, "reservoirflow/solutions/numerical/solvers.py"], [("get_matrices_vect / get_matrices_symb", FDM), ("solve options", FDM)],
    ["model.solve", "model.run", "solution.pressures"],
    "Differential: each random problem is solved under a base configuration and several others, including option changes between steps; iterative solvers are judged by residual.", "differential property-based testing across solver configurations (Hypothesis)",
)
prop(
    "C10", "A run is the sum of its steps and of nothing else",
    "Running n steps equals running them in any number of pieces, by run or solve calls, with or without balance checks, and repeating a run from scratch gives identical numbers. Past steps never change once solved, every step adds exactly one record, a step that fails while being solved leaves none, and other models or solutions alive in the process (sharing a grid, a fluid or nothing) do not influence the result.",
    ["histories", "schedules"], "every way to split a run, interleave several models or solutions, and query results in between",
    "Tests run each model once in isolation; process-wide caches and state shared through model, grid or fluid objects only show with interleaved histories.",
    [FDM, "reservoirflow/solutions/solution.py", BO], [("tstep/nsteps bookkeeping", FDM), ("functools caches and shared model state", BO)],
    ["solution.tstep", "solution.nsteps", "solution.pressures", "solution.rates", "model.get_df"],
    "Stateful random schedules over two models and several solutions, compared with isolated reference runs; failures injected into the linear solvers.", "stateful metamorphic property testing (Hypothesis)",
)
prop(
    "C11", "Wells honour their constraints in every step",
    "In every step a rate-controlled well delivers its target rate unless that would push its flowing pressure below the limit; then it flows at exactly the limit with the rate the well equation gives, and it returns to the target as soon as this is feasible. Reported cell pressure, flowing pressure and rate always satisfy the well equation with the equivalent radius and geometric factor of the cell, and re-specifying a well takes effect from the next step.",
    ["inputs", "histories"], "every well type, location, skin, radius and unit; any history of limits becoming active or inactive and of re-specified wells",
    "Tests have wells that never switch, or switch once in one example; combinations of several wells switching back and forth over time are not reached.",
    [BO, FDM], [("set_well, well factors", BO), ("well update and re-solve", FDM)],
    ["model.set_well", "model.wells", "model.w_pressures", "solution.rates"],
    "Random multi-well problems including limits near the operating point; numerically marginal switches are skipped and counted.", "property-based testing of well invariants with a reference well model (Hypothesis)",
)
prop(
    "C12", "Boundary conditions mean the same however they are given",
    "A boundary condition acts with its specified value from the next step on, independent of the documented alias or letter case used, of the method and order used to set it, and of whether it is set before or after compiling or between steps. Unspecified boundaries and edge or corner cells let nothing flow, a gradient equals its equivalent rate, and setting new conditions fully replaces the old ones; unknown conditions and cells are rejected.",
    ["inputs", "histories"], "every set of boundary cells, kinds, aliases, values (zero included), orders and times of setting",
    "Tests set one dictionary before compiling, in lower case, on 1D ends; the equivalences over aliases, orders, dimensions and times are never exercised.",
    [BO, FDM], [("set_boundary / set_boundaries / set_all_boundaries", BO), ("boundary terms", FDM)],
    ["model.set_boundary", "model.set_boundaries", "model.set_all_boundaries", "solution.rates"],
    "Metamorphic variants of random problems plus change histories against the reference simulator.", "metamorphic and stateful property-based testing (Hypothesis)",
)
prop(
    "C13", "Solutions obey the physics of single-phase flow",
    "Without sources, pressures stay between the extremes of initial and boundary values and a system at (hydrostatic) equilibrium stays there; compressible systems move monotonically to the steady state. Mirroring, relabelling axes, superposing sources, shifting pressure by a constant, or rescaling viscosity against permeability changes results only in the corresponding way.",
    ["inputs"], "every problem and its transformed counterpart",
    "Expected values in tests are single numbers from a book; relations between whole families of problems are not sampled.",
    [FDM, BO, RC], [("symmetric M-matrix assembly over all directions", FDM)],
    ["solution.pressures", "solution.rates"],
    "Metamorphic relations on random problems; exact up to conditioning-scaled rounding.", "metamorphic property-based testing (Hypothesis)",
)
prop(
    "C14", "Unit systems are consistent",
    "A problem stated in field, metric or lab units is solved with exactly the documented conversion factors, so two statements of one problem whose inputs differ by the documented factor ratios give equal pressures and rates. Every class reports the units and factors of its own unit system, changing the unit system of a grid or fluid updates everything derived from it, and unknown systems are rejected without effect.",
    ["inputs", "configurations"], "every problem and pair of unit systems, every class and history of unit changes",
    "All tests run in field units.",
    ["reservoirflow/base.py", RC, BO, "reservoirflow/fluids/single_phase.py"], [("UNITS / FACTORS tables and set_units", "reservoirflow/base.py")],
    ["factors", "units", "set_units", "fluid.g", "get_cells_G", "solution.pressures"],
    "Random problems solved twice in different unit systems with inputs rescaled by the documented factors.", "metamorphic property-based testing (Hypothesis)",
)
prop(
    "C15", "Compiling, switching and listing solutions never mixes them up",
    "Every documented spelling of solution type and method selects exactly that solution, unknown or unavailable ones are rejected and leave the model as it was, and each compiled solution keeps its own state. Selecting a solution by its listed name makes the model's solve, run and results those of that solution, and compiling again starts from the initial state.",
    ["histories", "inputs"], "every sequence of compile, set_solution, run and queries, every spelling of the arguments",
    "Tests compile one solution per model.",
    ["reservoirflow/solutions/compiler.py", "reservoirflow/models/model.py"], [("Compiler", "reservoirflow/solutions/compiler.py"), ("compile / set_solution registry", "reservoirflow/models/model.py")],
    ["model.compile", "model.set_solution", "model.get_solutions", "model.solution"],
    "Stateful random histories against a registry model.", "model-based stateful property testing (Hypothesis)",
)
prop(
    "C16", "Exported data frames are a faithful view of the results",
    "For any column selection and options, the exported table has one row per time step (or per step and cell when melted), in order, with each column labelled and filled with exactly the recorded time, date, pressure or rate of that cell or well. Dropping empty columns, adding units or melting never changes, reorders or misaligns the remaining values.",
    ["inputs", "histories"], "every problem, number of steps (including none), column list and option combination",
    "Tests compare a few stored CSV files for one option set.",
    [BO], [("get_df and its column builders", BO), ("time vector", BO)],
    ["model.get_df", "model.get_time", "model.get_centers", "model.get_domain"],
    "Random runs and option combinations, rebuilt independently from the recorded arrays.", "property-based testing against an independently rebuilt table (Hypothesis)",
)
prop(
    "C17", "Scalers are exact, invertible affine maps",
    "A min-max scaler maps the fitted minimum and maximum to the ends of the output range and everything else affinely, per column, per row or over all values as asked; transforming and inverting returns the original for any array without constant columns, any range and order of configuration. The dummy scaler is the identity, and using a scaler that was never fitted is rejected.",
    ["inputs", "histories"], "every array shape, range, axis and history of fit/set_output_range/transform calls",
    "One test checks a few fixed vectors.",
    ["reservoirflow/scalers/minmax.py", "reservoirflow/scalers/dummy.py"], [("MinMax", "reservoirflow/scalers/minmax.py"), ("Dummy", "reservoirflow/scalers/dummy.py")],
    ["MinMax.fit", "MinMax.transform", "MinMax.inverse_transform", "MinMax.set_output_range"],
    "Random arrays and call histories against an exact rational/affine oracle.", "model-based property testing with round trips (Hypothesis)",
)
prop(
    "C18", "Scaled model data are the configured affine image of the raw data",
    "For every scaler configuration of a model, scaled time, coordinates, cell pressures and rates lie in the configured output range, are the affine image of the raw values of the current solution, and are labelled as scaled exactly when they are. Columns configured without a scaler are unchanged, and configuring one column or exporting data never alters the others or the results.",
    ["inputs", "histories"], "every scaler configuration, option set and run history",
    "No test exports scaled data.",
    [BO, "reservoirflow/scalers/minmax.py"], [("set_scalers / update_scalers", BO)],
    ["model.set_scalers", "model.get_df(scale=True)", "model.get_time(scale=True)", "model.get_centers(scale=True)", "model.get_domain"],
    "Random models and scaler settings; affine image recomputed independently.", "property-based testing against an affine oracle (Hypothesis)",
)
prop(
    "C19", "The analytical 1D solution solves the diffusion problem",
    "The analytical 1D single-phase solution between two constant-pressure ends equals the Fourier-series solution of the diffusion equation, starts from the initial state, keeps the boundary values, stays within them, tends to the linear steady state, and is mirrored when the ends are exchanged. Its results line up with the model's time and cell-centre vectors and are approached by the finite-difference solution as the grid and time step are refined.",
    ["inputs", "configurations"], "every 1D grid length, property set, end pressures, initial pressure, time step and number of steps",
    "No test covers the analytical solution.",
    ["reservoirflow/solutions/analytical/d1p1.py", BO], [("series evaluation", "reservoirflow/solutions/analytical/d1p1.py"), ("get_alpha, get_domain", BO)],
    ["model.run", "solution.pressures", "solution.calc_solution", "model.get_alpha"],
    "Independent series and image-solution evaluation on random problems; FDM comparison on refined grids.", "differential property-based testing (Hypothesis)",
)
prop(
    "C20", "Fluid, grid and model inputs are validated and kept consistent",
    "Fluids, wells, grids and models report exactly the properties they were last given; derived values (gravity factor, compressibility class, total compressibility, accumulation coefficients, diffusivity) and the solved equations follow from them after any history of changes. Invalid input (negative compressibility, wrong list lengths, unknown names, wells or boundaries outside their cells, mismatched dtypes, a missing initial pressure, unknown options, classes that are not implemented) is rejected and leaves the object as it was.",
    ["inputs", "histories"], "every history of valid and invalid property settings, for every class and unit system",
    "Tests construct valid objects only.",
    ["reservoirflow/fluids/single_phase.py", "reservoirflow/fluids/fluid.py", "reservoirflow/grids/grid.py", "reservoirflow/models/model.py", BO, "reservoirflow/wells/single_cell.py"],
    [("set_props / set_comp validation", "reservoirflow/fluids/fluid.py"), ("argument assertions", RC)],
    ["SinglePhase", "RegularCartesian", "BlackOil", "SingleCell", "set_comp", "get_alpha"],
    "Stateful random histories against attribute models.", "model-based stateful property testing (Hypothesis)",
)
prop(
    "C21", "Array helpers keep content and order",
    "The array helpers convert between list, tuple, set, array and dictionary forms, test membership, intersect, and strip diagonals without losing, inventing, duplicating or reordering elements, for scalars and (i,j,k) points alike. Unknown formats are rejected.",
    ["inputs"], "every collection of ids or points, every format and pair of arguments",
    "No test covers the helpers directly.",
    ["reservoirflow/utils/helpers.py"], [("reformat, intersection, isin, ispoints, remove_diag", "reservoirflow/utils/helpers.py")],
    ["reformat", "intersection", "isin", "ispoints", "remove_diag", "issametype"],
    "Random collections against plain Python set/list semantics.", "property-based testing against Python containers (Hypothesis)",
)
prop(
    "C22", "Profiling and timing wrappers do not change what they wrap",
    "A function wrapped by any profiling or timing decorator returns the same value, raises the same exception, receives the same arguments and keeps its name and documentation, for any call pattern including recursion, nesting and repeated calls. Report files are written only when asked for and count the calls and executed lines truly.",
    ["inputs", "histories"], "every call pattern and wrapper option",
    "No test covers the wrappers.",
    ["reservoirflow/utils/profme.py"], [("cProfiler, lProfiler, profile, timeit", "reservoirflow/utils/profme.py")],
    ["cProfiler", "lProfiler", "profile", "timeit"],
    "Random functions, arguments and call histories, wrapped and bare.", "differential property-based testing (Hypothesis)",
)
prop(
    "C23", "Displays, plots and animations show the recorded results",
    "Every display draws exactly the cells it was asked for, coloured with the recorded pressures or rates of the shown step (every frame of an animation, every slider position); labels, dates, statistics, colour limits, well markers, plotted curves, their times and axis labels belong to them. Drawing changes neither grid, nor model, nor results. Unknown properties, labels, resolutions and modes are rejected.",
    ["inputs", "histories"], "every simulated history and every sequence of displays with any options and slider positions",
    "No test draws anything; what a picture shows depends on grid shape, cell numbering, boundary filter, step and options together.",
    ["reservoirflow/utils/pyvista.py", "reservoirflow/grids/grid.py", "reservoirflow/models/model.py"],
    [("drawing of meshes, labels, wells and texts", "reservoirflow/utils/pyvista.py"), ("show, save_gif", "reservoirflow/models/model.py"), ("get_pyvista_grid", "reservoirflow/grids/regular_cartesian.py")],
    ["grid.show", "model.show", "model.save_gif", "model.plot", "model.plot_grid"],
    "Random problems and display sequences drawn into a recorder, against the recorded arrays.", "stateful property-based testing against a reference model, recorder in place of the window (Hypothesis)",
)


prop(
    "C24", "Narration and reports describe the objects and change nothing",
    "Switching verbose on or off for any grid, fluid or model, at any time, never changes a result, a table, an error estimate or the accepted calls; verbose objects announce what is set and computed and stay verbose, silent ones print nothing beyond the announcements of compile and run, asked-for arrays and material balance warnings. "
    "Reports list every property with its current value in every table format, a single property is reported exactly, and unknown ones are answered as such. Reporting and printing an object leave it unchanged.",
    ["inputs", "histories"], "every combination of verbose flags, every history of queries, changes, solves and reports",
    "Tests run silently; the narrating branches of every accessor, of both assemblies and of the re-solving of limited wells are executed by none.",
    ["reservoirflow/base.py", RC, BO, FDM], [("report, __str__, __repr__, set_units", "reservoirflow/base.py"), ("if self.verbose branches", RC), ("verbose branches and restoring of verbose in run", FDM)],
    ["verbose", "report", "str()", "repr()", "run", "solve"],
    "Random histories with narrating objects against the reference models and silent twins.", "metamorphic and model-based property testing (Hypothesis)",
)


prop(
    "C25", "Shown flow equations and matrices are those being solved",
    "At any moment of a simulation, the flow equation given for a cell and the matrices given by vectorised and symbolic assembly (dense or sparse, threaded or not) are the discretised equations for the properties, wells, conditions and pressures in force then, and the recorded systems are those of their steps. "
    "Asking for them, in any order and any number of times and from any compiled solution, changes no result. Cells without an equation are rejected.",
    ["inputs", "histories"], "every problem, every history of steps, changes and switches between solutions, every order of questions in between",
    "One test compares both assemblies of one example; terms are cached between questions, so a wrong answer needs a change or a switch at the right moment.",
    [FDM, BO], [("get_cell_eq, get_cells_eq and their cached terms", FDM), ("get_matrices_vect, get_matrices_symb", FDM), ("As, ds", FDM)],
    ["get_cell_eq", "get_cells_eq", "get_matrices_vect", "get_matrices_symb", "solution.As", "solution.ds"],
    "Random histories, row by row against the reference equations and a twin that was never asked.", "stateful property-based testing against a reference model (Hypothesis)",
)


def build():
    have = {f[:-3].upper() for f in os.listdir(os.path.join(V, "rfcheck", "checks")) if f.startswith("c") and f.endswith(".py")}
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None},
            }) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in have:
            checks.append({
                "property": p["id"],
                "quick_cmd": f"/opt/venv/bin/python run.py {p['id']} quick",
                "thorough_cmd": f"/opt/venv/bin/python run.py {p['id']} thorough",
                "technique": p["technique"], "level": "exploration", "level_note": p["level_note"],
            })
        else:
            na.append({"property": p["id"], "reason": "check not built yet"})
    m = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.insert(0, '.'); from rfcheck import env; env.load(); import hypothesis\"",
        "checks": checks, "not_applicable": na,
        "notes": "No hooks: every check drives the public API of the working tree in /repo. Replay: run.py <ID> --replay <file>.",
    }
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
    print(len(checks), "claimed;", len(na), "not yet")


build()
