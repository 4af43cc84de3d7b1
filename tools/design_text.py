HEAD = """
# Runtime monitoring of chpolste/barotropic

(Generated by `tools/gen_design.py` from `tools/design_text.py`, the checks, `known_findings.json` and `seeded/`.)

## What there is to watch

barotropic is a pure-Python numerical library: a regular latitude-longitude grid with spectral transforms (pyspharm, single
precision Fortran), an immutable-by-convention `State` with lazily cached derived fields, a leapfrog integrator with implicit
diffusion and forcing terms, initial conditions, wave diagnostics, xarray import/export, matplotlib presets, text representations.
It has no native code of its own, no files it writes and no persistent state. **Compiler sanitizers and race detectors for native code
therefore have nothing to watch in this repository** (numpy, scipy and SPHEREPACK are prebuilt
dependencies outside of it). What remains of the family, and what decides every one of the 37 properties, is monitoring of real
executions: the code in `/repo/src` runs under seeded, hostile workloads, everything that crosses its public boundary is recorded
(arguments, results, exceptions, forcing-callback events, method calls received by matplotlib axes, content digests of shared
objects before and after every call), and deterministic oracles that do not use the code under test judge the record.
The analogue of "interleavings" in this code is the *history* of a process: which fields were accessed before, which objects are
shared, which arrays are reused, on which grids and planets a forcing term was evaluated earlier. C13, C18, C20 and the
`array_kinds` cases explore these. The library starts no threads, but users do, and its caches are filled without locks: C33 runs real threads under
seeded schedules (`lib/sched.py`: one thread moves at a time and can be stopped at every opcode of the code under test; a thread blocked by a lock of a waiting
thread loses its turn after 0.3 s) and under free preemption (switch interval 1 us). C34 raises exceptions at every kind of point: single opcodes, user code, refused input.

There are no hooks in /repo: the monitors use the public API only, so that renamed helpers, reordered statements and rewritten loops
do not matter to them.

## Oracles

* `lib/refsphere.py`: float64 reference of the sphere from `scipy.special.sph_harm_y`: synthesis/analysis of band-limited fields,
  analytic derivatives, PV inversion, nonlinear PV-flux divergence, implicit diffusion, time steps. (pyspharm is exact to ~1e-6 for
  degrees n <= nlat-2; the last degree nlat-1 is aliased by the regular grid and excluded from the properties.)
* closed forms: solid-body rotation, Rossby-Haurwitz waves, linear waves on a resting planet, polynomials, single zonal waves.
* brute-force definitions in plain loops: cell areas, clipped piecewise-linear quadrature by Gauss-Legendre, means by summing
  points, region membership point by point, Hann sums, discrete Fourier sums, waveguide scans, row-major flattening.
* algebraic laws on outputs: linearity, additivity, equivariance under shift/mirror, idempotence, conservation, bounds.
* history oracles: twin objects that never saw the history, logs of forcing evaluations, digests of every input and of every
  array handed out earlier.
* `lib/reps.py`: the same content as Fortran-ordered, strided, reversed, read-only, transposed, broadcast, reused-buffer,
  recycled-memory (id reuse), single-precision and integer arrays must give the same result.

## Running

`./run.py Cxx --tier quick|thorough`; `--seed`, `--replay FILE` re-executes exactly one recorded case; `--all` for all properties.
`setup_cmd` is a self-test of the reference against closed forms (nothing has to be built). The interpreter is
re-executed with fixed hash seed, single-threaded BLAS, `PYTHONPATH=/repo/src` and no bytecode writing, and refuses to judge a
`barotropic` that was not imported from the working tree. Cases are numbered and seeded individually from (VERIF_SEED, property, kind,
number) and distributed over 8 forked processes; a run is deterministic. Verdicts are three-valued: 0 held on everything observed,
1 with VIOLATION line and replay file, 2 inconclusive (a required monitor saw too few events, a case exceeded 200 s, watchdog at
840 s, harness failure, wrong import). An exception in the oracle while it reads a result counts as a violation (the result has not the
documented form), operating system and memory errors as inconclusive. Quick takes 2-60 s per check on 8 cores, thorough at most about 10 min
(soft limit 600 s). Planets of the shared
generator have 8 to 72 longitudes and, in 1.5% of the cases of every check, 80 to 180 (some 200 to 400 where the code is fast enough); C03 and C11 add cases of their own on fine grids. Evidence lists cases and distinct cases (by description digest), oracle evaluations, observed events and samples.

Level of all checks: exploration. Nothing is claimed about inputs and histories that were not generated. Tolerances are derived from single
precision transforms (1e-5 to 6e-5 of the natural scale of the quantity), double precision for everything that does not
pass a transform; each was set from observed worst cases over many seeds times a margin and is at least an order of
magnitude below the effect of any realistic defect.
"""

TEXT = {
"C01": """All array and scalar attributes of grids are compared pointwise with closed forms (exact spherical cell areas by differences of sines). Resolutions are
360/nlon for nlon up to 4000 even, as float, numpy single precision and integer; radii 1 m to 7e7 m, rotation rates of both signs and 0. Constant time per grid; grids with several
thousand longitudes only with `legfunc="computed"`. The exported names, time intervals and axis constants are compared with their meaning.""",
"C02": """Pairs of grid configurations whose relation is known from the parameters (equal up to a few ulp, different in exactly one parameter by factors from 1e-9 up, slow and fast
rotation, tiny and huge radii, truncations next to each other); equality in both directions, `!=`, hash, dictionary lookup; comparisons with foreign objects incl. ones that answer
comparisons themselves. Collections of up to 8 states with a deviating grid at every position.""",
"C03": """Synthesised fields with known coefficients (single harmonics of every order and degree, random spectra, large offsets) pass the transform and back; truncated degrees must vanish to
single precision; linearity, idempotence, radius independence, interleaved transforms on several grids with reused buffers.""",
"C04": """Analytic derivatives from the reference for scalar and vector fields at every point incl. rows next to poles; every variant (single, combined, gridded, spectral, mixed) is compared
with the same reference; identities (curl grad, div rotated grad) and scaling with the radius.""",
"C05": """The reference solves both equations per total wavenumber in float64. Orders 1 to 20, coefficient*dt over 30 decades, c of both signs away from eigenvalues, non-finite results are
violations. A run with extreme diffusion shows the same inside the model.""",
"C06": """Random polynomials of the guaranteed degree, and stencils recomputed by solving Vandermonde systems for arbitrary fields (one-sided ones at and next to the poles); ndim 1 and 2; integer, single, double.""",
"C07": """Expectation for sptrapz: split every latitude interval at the zero of the piecewise-linear domain field and integrate field*cos by 12-point Gauss-Legendre; for boxcount: sum over
points. Domains with exact zeros, plateaus, slivers, sectors of 1..nlon longitudes; linearity, additivity, full sphere, radius scaling, refusals; calls made from inside the diagnostics are observed too.""",
"C08": """Sum over the selected points one by one in Python floats, for all axis spellings, regions (crossing 0, polar, single point), full and extracted input, integer/boolean/single input.""",
"C09": """The area at or above each contour is measured by the reference quadrature of C07 and must equal the area of the polar cap of the returned equivalent latitude. Automatic and explicit levels (unsorted, numpy integers), sectors, both
schemes; range, monotonicity, shift invariance, fixed points, extreme values at the poles; `State.pv_zonalized`.""",
"C10": """Direct sum with periodic or mirrored indices; windows by name (boxcar, hann, hamming, blackman, flattop, ...) and as arrays of any odd length up to beyond the field; widths at rounding boundaries.""",
"C11": """Membership of each gridpoint is decided from its coordinates; order, mask, shape, coordinates, gridpoint areas, extraction of 1D and 2D fields, monotonic longitudes; 90 kinds of invalid selections. Limits are also written as the decimal numbers a user would use, on grids (e.g. 2.4, 0.9 degrees) whose coordinates are not those numbers exactly.""",
"C12": """The float64 reference of the flow provides every derived field; states are built from winds, vorticity, PV, spectra and addition; aliases and gridded/spectral versions must agree; arbitrary (not band-limited) input is checked by consistency relations.""",
"C13": """Random histories of ~75 public operations and 4 plot presets on one shared environment. After every operation: digests of all inputs (arrays, dataset, mappings, list, grid attributes) and of all arrays handed out so far, and comparison of the result with the same call on
an untouched twin environment; at the end all fields of all states in random order. Settings of the process (numpy, matplotlib, xarray, warnings, locale, environment, random states, files of a scratch working directory, figures) are compared around every call.""",
"C33": """2 to 4 threads (8 when free) execute plans of the C13 operations on one shared environment: the same call in all of them, derived fields only, cached things only, anything, every operation against another. Schedules: random handovers with probabilities from 0.004 to 0.5 per opcode or line,
priority-based ones with 2 to 12 change points (a thread sleeps in the middle of a call while others complete theirs), free preemption. All results are compared after all threads have ended (so that shared scratch arrays show) with those of the same plan of one thread on objects of its own; inputs and grids are digested; fields afterwards are compared with
untouched twins. `trajectories`: runs of shared models with cached orographies, user terms that log their evaluations per thread, on one or several grids. Each schedule is identified by the digest of its handovers in the evidence.""",
"C34": """`interruption*`: the events (lines or opcodes inside of the package) of a call are counted in a twin with the same past, then KeyboardInterrupt, MemoryError or a user exception is raised at a random one of them, up to three times; the very exception object must come out; digests of inputs, grids and arrays handed out; the
repeated call and later ones against untouched twins. `callbacks`: 15 places where user code runs, failing in its k-th call with 22 exception types; number of calls at the failure; repetition. `floating_point`: `np.errstate(all="raise")`. `refusals`: 32 kinds of bad calls between good ones.""",
"C36": """The analogue of a leak sanitizer: the garbage collector's list of living objects (states, grids, collections, models, terms; counted inside forcing callbacks during runs of 60 to 130 steps and after results are dropped) and tracemalloc (bytes of array data by numpy's own domain before and after 40 repetitions of every operation of C13's table;
peaks of runs of n and 5n steps; 90 planets or sets of objects made and dropped). Bounds leave room for caches several times as large as the present one (8 gradients of orographies); the smallest leaks that count are one object per repetition or .4 rows of a field per repetition. Observed on the unchanged tree: 0 bytes per repetition.""",
"C37": """Each case draws an environment, a history of 27 of C13's operations (plus wavelets, plots, texts, sets of grids) and 4 processes: subsets of the optional packages hidden by an import hook, interpreter options, environment variables, main thread/other thread/forked child, a scratch directory that is removed or unreadable, closed streams. The worker `lib/fresh.py`
compares the settings of the process before and after the import (after all dependencies) and returns the results of every operation and of objects that were pickled here; the deciding step is their comparison with the results of the ordinary process (tolerance 1e-6 of the field, pictures by pixels). Operations that need a missing package have to raise.""",
"C35": """A table of 60 operations with their documented parameters, defaults and alternative values. The call with all parameters by name is the reference; calls that give a random prefix by position, the rest by name in random order and omit a random subset of the parameters at their defaults must
give the same result (arrays, states, datasets, pixels of figures). No expected values are stored, the documented defaults are the only knowledge.""",
"C14": """Right operands: state on the same grid, wind tuples/lists, vorticity arrays, chains of additions, other time types; expectation by adding coefficients; planetary vorticity counted once; refusals incl. broadcastable shapes.""",
"C15": """Documented profiles evaluated in float64 with analytic vorticity; all presets by position and keyword, jets in both hemispheres incl. poles, Bickley-like widths, radii; profiles that are missing, doubled or of wrong size.""",
"C16": """Each step is recomputed in float64 from the documented formula with the library's own tendency inputs replaced by reference ones; filter values over [0, 1], dt as number and timedelta, forcing constant/field/None, background as field/spectrum/zonal profile.""",
"C17": """A recording forcing logs every evaluation (time, state). The log must be start, start+dt, ...; saved states must be the first at or past each multiple; the trajectory is also stepped from outside with public `euler`/`leapfrog`. Irrational ratios of dt, interval and end; ends at, just before and after steps; datetimes; starts anywhere.""",
"C18": """Plans of runs are executed in random interleavings, repeated, restarted and batched, with shared models, forcings, grids and collections, on number and datetime axes; each result must equal that of the same run on fresh objects (bitwise up to single precision reuse).""",
"C19": """Invariants (mean PV, energy, enstrophy) are logged along runs; symmetric twins (shift, mirror) run next to the original; waves: phase against the theoretical angular velocity -2 Omega m/(n(n+1)) plus advection, for every degree up to the truncation, also with hyperdiffusion of known decay.""",
"C20": """All terms are evaluated over sequences of states, grids and planets in random order and compared with the documented expression in float64; orography with interpolated and analytic heights, mountains across 0 degrees, wind selections, fixed f incl. 0; random expression trees of sums and products; user-defined terms that return the same array every time.""",
"C21": """Displacement integral by the reference quadrature for every equivalent latitude and longitude; custom levels, both schemes, interpolated and raw output, radii; non-negativity, zero for monotonic zonal PV, shift, scaling, zonal mean, accessors.""",
"C22": """Independent point-by-point formula; thresholds around the wind values (also tiny ones), zero wind, zero gradient, orders 2 and 4; the three variants are converted into each other; state vs. field vs. profile.""",
"C23": """Runs of gridpoints at or above the wavenumber are collected by a plain scan, limits are interpolated independently; profiles with plateaus, exact equality, +-inf, imaginary values, at poles; from states through the accessor.""",
"C24": """Plain discrete Fourier sums; waves with latitude-dependent amplitudes, noise, ties; ranges inclusive at both ends, up to and beyond Nyquist; wavelet for single waves by latitude on grids of 12 to 360 longitudes, packets and shifts, smoothing with different widths in the two directions.""",
"C25": """Direct weighted sum at each gridpoint; profiles/fields of wavenumbers, integers, out of range, odd numbers of longitudes; points where the number of gridpoints per wavelength is decided by rounding are left out.""",
"C26": """Every value, dimension and label of the dataset is compared with the states for random collections (repeated, decreasing, sub-second, old times), containers (lists, generators, maps, single state), field specifications and index dimensions, incl. names of methods and of other attributes.""",
"C27": """Datasets are generated from known flows with random names, overrides, priorities, distractors, extra dimensions with or without (repeated) labels, coordinate precision, time types and places, machine time zones; every imported state is compared with the float64 flow at its row-major place. 32 kinds of defective datasets must be refused. Round trips through export. All resolutions up to nlon=380.""",
"C28": """The `falwa` package is not installed: a stand-in with its documented constructor (South-to-North latitudes, `dphi`) records what it receives. Point-by-point comparison both ways, grids None/same/equal/other planet, foreign objects that were not made by barotropic, size refusals.""",
"C29": """Model-based: a collection and a plain tuple of the same states undergo the same random sequence of operations; calls of mapped functions and methods are logged (exactly once per state, in order, with the arguments); stacking rules by kind of result; copying, pickling, refusals.""",
"C30": """All calls received by matplotlib axes (contour, contourf, quiver, plot, fill_between, set_*) are recorded by wrapped methods; each drawn value is looked up in the state's field at the labelled coordinate (via the axis' tick formatter and labels), for all presets, central longitudes and hemispheres. Titles, labels, legends, colour bars, colour maps and level ranges are compared with the fields of the panels. Helpers against brute force.""",
"C32": """Expectation by locating the two neighbours of every target latitude (the pole values are the outermost data) in a plain loop; regular, dual, Gaussian, random, clustered and grid latitudes in any order, with and without poles, all
number types; other kinds against `scipy.interpolate.interp1d`; linearity, order independence, no overshooting, later changes of the inputs.""",
"C31": """Texts of all public objects are parsed; the numbers must be those of the object within the printed precision; the region map is compared box by box; times of all types and magnitudes incl. negative, numpy, datetime.""",
}

TAIL = """
## Not decided by this family

None of the 34 properties. Threads that draw figures (pyplot is not thread-safe) and additions of states on equal but not identical grids (refused today, not documented) are left out. Observations that are deliberately **not** claimed: slices of a `StateList` (they are plain tuples), mapping
functions that return arrays of different shapes, `State.time` given as `numpy.datetime64` (only what the library itself creates from
datasets is monitored), `NaT` times, spectral degrees n = nlat-1, timings, exact error messages, colours of plots.
`save_every` as `timedelta` is documented as unsupported but works and is monitored.

## Defects found and repaired

37 `fix:` commits in /repo, listed in `known_findings.json` (and above at the property that found them). No finding is left
unrepaired, so no check prints a KNOWN-FINDING line. Defects whose repair was made because two
properties met: numeric times of imported states (C27/C31).

## False alarms that were corrected in the machinery

* C21: with boxcounting the activity of a zonally symmetric field vanishes only if contours separate the values of all latitudes: the property says so now.
* C04, C12, C20, C30: tolerances relative to the field only were too tight where large terms cancel (planetary vorticity at small flow, 1/r^2 at
  small radii); they are relative to the largest term now.
* C19: linear waves with diffusion: planetary vorticity itself is diffused without a background, so the case gives the background f.
* C21: the area inside a contour jumps where neighbours of a meridian share its value exactly; shifts and offsets are not compared at such contours.
* C23: points of exact equality may fall on a limit; the property says so.
* C24/C25: wavenumbers that are ties, and widths decided by rounding of exact ratios, are left out.
* C31: points on a box edge of the map may count for either neighbour.
* C29/C30: comparison of the harness with plain sequences and tick labels corrected (`map` of booleans, formatter of hidden axes).

## Planted bugs

`seeded/` holds changes written from the property texts, each confirmed in a scratch copy (applies, 100 tests pass, demo 0/nonzero). Which check catches
which is listed at each property; `tools/try_bug.py ID` repeats it. All of them are caught by the check of their property in the quick tier. Bugs that were
missed first led to: array kinds (C03 and many others), off-grid single values (C11), windows with negative lobes (C10), broadcastable shapes (C14), fast and slow
planets and saves with datetimes (C18), waves at the end of the spectrum (C19), pairs of smoothing widths (C24), finer grids for the filtered
activity (C25), sub-second times and more index names (C26, C27), name overrides of lower priority (C27), unordered Hovmoeller times (C30), unsorted
levels and incomplete option mappings (C13).
"""
