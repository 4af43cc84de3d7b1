"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os

G, S, M, R, I, D, IO, P, F = (
    "src/barotropic/" + f for f in (
        "grid.py", "state.py", "model.py", "rhs.py", "init.py",
        "diagnostics.py", "io.py", "plot.py", "formatting.py"))
PROPS = []

def prop(id, title, statement, over, text, why, files, mech, observe, hook=None):
    PROPS.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w + ": " + n} for n, w in mech],
            "observe_at": observe, "hook_needed": hook}})

prop("C01", "The grid covers the sphere exactly at every resolution",
"""For every resolution that divides 180 degrees (including resolutions a float can only represent
approximately), planet radius and rotation rate, the grid has 360/resolution equally spaced longitudes
starting at 0 without repeating 360, and 180/resolution + 1 equally spaced latitudes running from +90 to -90,
and its degree, radian, one-dimensional, two-dimensional and spacing attributes all describe these same points.
Gridpoint areas are the exact areas of the spherical cells around the gridpoints (polar points being caps), so that
summed over all points they give the area of the sphere. Coriolis parameter and circumference equal
2*omega*sin(lat) and 2*pi*r*cos(lat) for scalar and array input alike. Without arguments the planet is the
Earth (radius 6371.2 km, rotation rate 7.292e-5 1/s) at a resolution of 2.5 degrees. The exported constants name the
axes of fields with any number of leading dimensions (ZONAL, MERIDIONAL) and time intervals in seconds (MIN, HOUR, DAY,
WEEK), and importing everything from the package gives all of its public names.""",
["inputs", "configurations"],
"all resolutions 180/k, radii and rotation rates (including zero rotation)",
"Tests only sum the areas for 5 resolutions and 3 radii; 54 even point counts below 4000 gave a wrong grid size.",
[G], [("Grid.__init__ coordinate setup", G), ("Grid.gridpoint_area / coriolis / circumference", G)],
["Grid(...) attributes", "Grid.gridpoint_area", "Grid.coriolis", "Grid.circumference"])

prop("C02", "Grid equality and hashing never confuse two planets",
"""Two grids compare equal exactly when they have the same shape and spectral truncation and, up to rounding, the same
radius and the same rotation rate, whatever the magnitude of these numbers. Comparing a grid with any other
object gives 'not equal' instead of an error, and equal grids always have equal hashes so that they are
interchangeable as dictionary keys. A collection of states accepts any states on equal grids and
refuses every mixture that contains a state on a different grid, at whichever position it is.""",
["inputs", "configurations"],
"all pairs of grids and all sequences of states on such grids",
"One test refuses a list with two resolutions; equality, hash agreement and slow or small planets are never compared.",
[G, S], [("Grid.__eq__ / Grid.__hash__", G), ("StateList.__init__", S)],
["Grid ==, !=, hash(), dict/set membership", "StateList(...), StateList + StateList"])

prop("C03", "Grid/spectral transforms are exact, idempotent projections",
"""A gridded field composed of spherical harmonics whose degrees do not exceed the truncation (and stay below
nlat-1) survives the transform to spectral space and back unchanged to single precision, for every resolution, radius,
truncation and Legendre-function mode. Components with a degree above the truncation are removed completely and those
at or below it are untouched. The transforms are linear, repeating the round trip changes nothing, and
the spectrum of a field does not depend on the planet's radius.""",
["inputs", "configurations"],
"all fields, resolutions, truncations, radii and both Legendre modes",
"Tests use the default truncation at 2.5 degrees with two smooth fields; truncation and the 'computed' mode are never run.",
[G], [("Grid.to_spectral / Grid.to_grid and truncation setup", G)],
["Grid.to_spectral", "Grid.to_grid"])

prop("C04", "Vector calculus operators match exact derivatives on the sphere",
"""For every band-limited field, planet radius, resolution and truncation, the gradient (zonal component first), Laplacian, vorticity and
divergence agree with the analytic derivatives on the sphere of that radius, including at rows next to the poles. Winds
computed from vorticity and divergence (each given gridded or spectral) have exactly that vorticity and divergence, the curl
of a gradient and the divergence of a rotated gradient vanish. Every combined, single, gridded and spectral variant of an
operator returns the same result.""",
["inputs", "configurations"],
"all band-limited fields and wind fields, radii, resolutions, truncations",
"No test calls gradient, laplace, divergence or the combined operators (one of them raised NameError on every call).",
[G], [("Grid.gradient / laplace / wind / vorticity* / divergence*", G)],
["return values of the Grid operators"])

prop("C05", "Poisson and diffusion solvers solve their equations",
"""Applying (Laplacian - c) to the solver's solution for constant c gives back the right-hand side; for c = 0 this holds up to the
global mean of the right-hand side, and the solution has zero mean. One implicit diffusion step of any order, coefficient and time
step divides the component of total wavenumber n by 1 + dt*coeff*(n(n+1)/r^2)^order, so it keeps the global mean, never
amplifies or flips a component and never turns a finite field into a non-finite one. Gridded and spectral variants agree.""",
["inputs", "configurations"],
"all fields, constants, orders, coefficients, time steps, radii",
"Solvers are only reached through the model with order 2 and one coefficient; order 4 returned NaN, c != 0 lost the mean.",
[G], [("Grid.solve_poisson(_spectral)", G), ("Grid.solve_diffusion(_spectral)", G), ("Laplacian eigenvalues", G)],
["Grid.solve_poisson", "Grid.solve_diffusion", "spectral variants"])

prop("C06", "The meridional derivative has its documented order everywhere",
"""The finite-difference derivative with respect to latitude (in radians) is exact, up to rounding, for polynomials in latitude
up to degree 2 (order 2) or 4 (order 4, also the default) at every point, including the points next to and at the poles,
independently for every longitude. For one-dimensional profiles the two polar values are zero and all others equal those of the same profile
as a two-dimensional field, for every number type of the input (single and double precision, signed and unsigned integers of any size, booleans). Unsupported orders, ranks and too few latitudes are refused.""",
["inputs", "configurations"],
"all 1D and 2D inputs, both orders, all grids with enough latitudes",
"Tests differentiate one linear function on one grid in 1D only, which any consistent stencil passes.",
[G], [("Grid.derivative_meridional", G)], ["Grid.derivative_meridional"])

prop("C07", "Quadrature integrates exactly what it documents",
"""The sptrapz scheme returns, per meridian, the exact integral (with the cosine area factor) of the piecewise-linear interpolant
in latitude of the field over the part where the piecewise-linear interpolant of the domain field is >= 0; the boxcount scheme returns the sum
of gridpoint area times value over gridpoints whose domain value is >= 0. Both are linear in the field, additive over complementary
domains, hold for every number type of field and domain, give the full sphere for a constant 1, scale with the planet radius and accept sectors of any number of longitudes, and the surface integral is the
sum of the meridional ones times the zonal spacing. Input with wrong latitude size or rank and unknown schemes are refused.""",
["inputs", "configurations"],
"all fields, domain fields (including exact zeros and no or full coverage), sectors, schemes, radii",
"Tests integrate the constant 1 over the whole sphere; no domain field is ever given.",
[G], [("Grid.quad / Grid.quad_meridional", G)], ["Grid.quad", "Grid.quad_meridional"])

prop("C08", "Means are area-weighted over exactly the selected points",
"""The mean over a field, optionally restricted to a region given with the full field or with the already extracted field, equals the sum of
value times gridpoint area divided by the sum of areas over exactly the selected gridpoints; the meridional mean does
so separately for each longitude and the zonal mean separately for each latitude. It lies between the minimum and maximum of the selected values, and
all spellings of an axis and the region's own mean give the same number. Shapes that match neither grid nor region, and unknown axes, are
refused.""",
["inputs", "configurations"],
"all fields, regions (also across 0 degrees and containing poles), axes",
"Tests use constants and half-and-half fields for which most wrong weights cancel.",
[G], [("Grid.mean", G), ("GridRegion.mean / gridpoint_area", G)], ["Grid.mean", "GridRegion.mean"])

prop("C09", "Zonalization conserves the area inside every contour",
"""For every field, sector, set of contour levels and quadrature scheme, each returned equivalent latitude is the one whose polar cap (to the north) has the area
in which the field (of any number type), by that quadrature scheme, is at or above the contour (scaled from sector to globe). The zonalized profile lies within the field's value range, never increases
towards the south for automatic levels, is unchanged by shifting the field in longitude, has the field's maximum and minimum at the poles and reproduces a field that already is zonally symmetric
and increases northward. Equivalent latitude accepts scalars and arrays, maps area 0 to +90 and the sphere's area to -90, and clips beyond.""",
["inputs", "configurations"],
"all fields, level specifications (None, counts of any integer type, arrays), sectors, schemes",
"Tests only look at the shape of the zonalized PV of solid-body rotations.",
[G], [("Grid.zonalize", G), ("Grid.equivalent_latitude", G)], ["Grid.zonalize", "Grid.equivalent_latitude"])

prop("C10", "Window filters are normalized, centred convolutions",
"""A filter window has an odd number of gridpoints (the next odd number at or above the rounded width), is symmetric and sums to one. Filtering equals the direct convolution with the window,
periodic in longitude and mirror-symmetric at the poles, for one- and two-dimensional fields and for windows given by
name or as an array. Hence constants are preserved, zonal filtering preserves the zonal mean and commutes with shifts in longitude,
and fields of wrong size or rank are refused.""",
["inputs", "configurations"],
"all fields, window types, widths (up to and beyond the grid), grids",
"Tests only look at output shapes.",
[G], [("Grid.get_filter_window / filter_meridional / filter_zonal", G)],
["Grid.get_filter_window", "Grid.filter_meridional", "Grid.filter_zonal"])

prop("C11", "Region selection picks exactly the points inside the coordinates",
"""A region contains exactly the gridpoints whose longitude and latitude lie within the selected ranges (inclusive, also when the rounding errors of the grid's coordinates differ from those of the limits), where a longitude range with stop < start crosses
0 degrees and is returned contiguously from west to east, latitude limits may come in either order, missing limits are open, 'N' and 'S' are hemispheres including the equator, and single
values select that coordinate or are refused if not on the grid. Extraction of 1D and 2D fields, mask, shape and coordinates all describe these same points in the
same order, extracted data are copies, independent of the field, and the monotonic longitudes increase strictly and equal the longitudes modulo 360. Anything that is no such selection (steps, wrong types, too many dimensions, wrong field shapes) is refused.""",
["inputs", "configurations"],
"all pairs of slices and values, on and off gridpoints, on all grids, also those whose coordinates are not exact decimal numbers",
"Tests sample about ten selections on one 10 degree grid; none checks the values or the mask.",
[G], [("GridRegionIndexer", G), ("GridRegion.extract / mask / lon_mono", G)],
["Grid.region[...]", "GridRegion.extract, mask, shape, lat, lon, lon_mono"])

prop("C12", "All fields of a state describe one and the same flow",
"""For a state built from winds, relative vorticity, PV or a PV spectrum, the PV equals planetary plus relative vorticity, the wind is non-divergent and has that relative vorticity, and the
streamfunction is the zero-mean field whose Laplacian is the vorticity and whose rotated gradient is the wind. Kinetic energy, enstrophy, eddy enstrophy and the PV flux divergence are those of these PV and wind
fields, gridded, spectral and alias accessors agree, and states built from one representation of a non-divergent flow equal those built from any
other.""",
["inputs", "configurations"],
"all band-limited flows, construction paths, planets, resolutions and truncations",
"Tests compare three hand-picked flows on the default Earth grid and never look at streamfunction, energy or flux values.",
[S, G], [("State constructors, field accessors, PV inversion", S)], ["State attributes"])

prop("C13", "States and inputs are never modified; access order never matters",
"""No operation (field access, diagnostics, plotting, export, arithmetic, filtering, region selection, forcing evaluation, integration) changes the content of the arrays, states, grids, datasets or option
mappings it was given. The value of every derived field depends only on the state's PV, grid and time, not on which other fields, diagnostics, plots or
integrations were evaluated before, and repeating any call returns the same values. Nor does any operation change settings of the process (numpy, matplotlib, xarray, warnings, locale, environment, random states) or leave
files, and none except the plots touches figures.""",
["histories", "inputs"],
"all sequences of accessor, diagnostic, plotting, export and integration calls on shared objects",
"Tests evaluate each accessor once on a fresh state; memoization and in-place arithmetic only fail in longer histories.",
[S, G, D, M, R, IO, P], [("memoized accessors (lazy fields)", S), ("in-place numpy arithmetic throughout", D)],
["digests of arguments before and after each public call", "State attributes along random histories"])

prop("C14", "State addition superposes flows and counts rotation once",
"""Adding a state or a raw wind or vorticity field to a state yields a state on the same grid and at the time of the left operand whose relative vorticity (and, for non-divergent input, wind) is
the sum of both and whose PV contains the planetary vorticity exactly once. Wind-based and vorticity-based addition agree, adding rest changes nothing, and the
order of the operands does not matter for the fields. Fields whose shape does not fit the grid and states
of another planet, resolution or truncation are refused.""",
["inputs"],
"all pairs of states and raw fields on all grids",
"No test adds states.",
[S], [("State.add_wind / add_vorticity", S)], ["State.add_wind", "State.add_vorticity"])

prop("C15", "Initial conditions are the documented flows",
"""Every initial-condition preset returns a state with the requested grid and time whose wind, for any parameters resolvable by the grid, is the documented profile: rest, a given zonal
profile of wind or PV, amplitude*cos(lat), a Gaussian jet minus the linear function of latitude that makes it vanish at both poles, and A*cos - B*cos^3 + C*cos^6*sin^2. The flow is zonally symmetric
with no meridional wind, and its relative vorticity is that of the profile on a sphere of the grid's radius. Profiles that are missing, doubled or of wrong size are refused.""",
["inputs", "configurations"],
"all parameter values, grids and planets",
"Tests only use rest and solid-body rotation, mostly for shapes.",
[I], [("init presets", I)], ["State fields returned by the presets"])

prop("C16", "Each time step is the documented discretization",
"""An Euler step advances PV by dt times (forcing minus PV-flux divergence) and then applies one implicit diffusion step over dt; a leapfrog step does the same over
2*dt from the older state with the tendency of the current state, with dt the time difference of its inputs. The returned current state is the Robert-Asselin filtered
(1-2a)*now + a*(old+new) for the given a (0.2 by default), time stamps are exact, and with a diffusion background only the deviation from that background is diffused.""",
["inputs", "configurations"],
"all states, time steps (numbers, timedelta), forcings, diffusion settings, backgrounds, filter parameters, planets",
"The only run in the tests checks end time and the number of saved states.",
[M], [("BarotropicModel.euler / leapfrog, tendency and diffusion helpers", M)],
["BarotropicModel.euler", "BarotropicModel.leapfrog"])

prop("C17", "A run starts, stops, saves and filters as specified",
"""A run is the sequence of one Euler step followed by leapfrog steps, evaluates the forcing at the times start, start+dt, start+2*dt, ... in order, and returns the (filtered) state at the first step time not before
the requested end, which is the initial state itself if the end is not after the start. Saved are the initial state and, if a positive interval is given, every state that is the first at or past another multiple of
the interval after the start (one at most per step), as a state collection in order of time holding the states of that trajectory, regardless of the start time.""",
["histories", "inputs", "configurations"],
"all start times, steps, end times and save intervals (commensurate or not, larger or smaller than the step)",
"One run from time 0 with commensurate intervals; starting later saved every single step and a past end returned a bare list.",
[M], [("BarotropicModel.run", M)], ["forcing callback events", "run() return values"])

prop("C18", "Results do not depend on time units, history or batching",
"""Integrating the same initial PV gives the same fields whether time is kept as numbers or as datetime/timedelta objects and wherever the time axis starts. A model and its
forcing carry no memory: repeating a run, running other states, grids or time steps in between, interleaving runs or restarting give identical results to fresh objects. Running through a state, a
collection of states or the model directly is the same, member by member.""",
["histories", "inputs", "configurations"],
"all interleavings of runs that share models, forcings and states; numeric and datetime axes",
"Tests never reuse a model or integrate with datetimes.",
[M, R, S], [("stateless BarotropicModel", M), ("per-grid cache of orography gradients", R), ("StateList.run", S)],
["BarotropicModel.run", "State.run", "StateList.run"])

prop("C19", "Unforced integrations conserve, stay symmetric and move waves right",
"""Without forcing, global-mean PV stays constant, total energy and enstrophy stay constant up to the scheme's small filter damping (and enstrophy does not grow with diffusion), zonally symmetric flows without diffusion stay steady,
and Rossby-Haurwitz waves travel at their theoretical angular velocity on any planet. Shifting the initial state in longitude shifts the result, mirroring a state across the equator (with sign-reversed
PV) mirrors the result, and rest stays at rest.""",
["histories", "inputs", "configurations"],
"all initial flows, planets and integration lengths within stability",
"Tests never look at the fields an integration produces.",
[M, S, G], [("flux-form PV advection in spectral space", S), ("leapfrog + Robert-Asselin", M)],
["states returned by run()"])

prop("C20", "Forcing terms evaluate to their documented expressions",
"""Orographic forcing is -f/H * (wind . grad h) with the interpolated or analytic height h on the state's grid, with the actual, zonal-mean or solid-body wind scaled as specified and the actual or fixed f;
mountains and given height fields have their documented shape at every longitude, also across 0 degrees; relaxation is rate*(reference - PV) and the timed switch is 1 up to and including its time and 0 after. Sums and products of terms, nested in any
way, equal the sum and product of the values of their parts, at every state, grid and planet they are evaluated on, in any order of evaluation.""",
["inputs", "configurations", "histories"],
"all terms, combinations, parameters, states and sequences of grids",
"One mountain is run in one test, whose effect is never looked at.",
[R], [("RHS operators", R), ("Orography and subclasses, cached gradient", R), ("LinearRelaxation, TimedOffSwitch", R)],
["rhs term call results", "orography(grid)"])

prop("C21", "Wave activity is the area-displacement integral and non-negative",
"""Local finite-amplitude wave activity at every longitude and equivalent latitude equals the integral of the PV deviation from the contour over where PV exceeds it, minus the integral of the deviation over
everything north of that latitude, divided by cos(lat), by the chosen quadrature scheme; hence it is finite, non-negative, zero for zonally symmetric PV increasing northward (with the boxcounting scheme, if contours separate the values of all latitudes), moves along with a shift in longitude and is linear under scaling of PV. Finite-amplitude
wave activity is its zonal mean, through every accessor, and interpolated output goes to zero at the poles and interpolates the uninterpolated values linearly.""",
["inputs", "configurations"],
"all PV fields, level specifications, quadrature schemes, planets (also uniform PV)",
"Tests only look at the shape for solid-body rotations; uniform PV gave NaN.",
[D, S], [("diagnostics.falwa / fawa", D), ("State.falwa / State.fawa", S)],
["diagnostics.falwa", "diagnostics.fawa", "State accessors"])

prop("C22", "Stationary wavenumbers match theory and stay defined",
"""The squared stationary wavenumber equals r*cos(lat)^2 times the latitude derivative of zonal-mean PV divided by zonal-mean zonal wind, is infinite with the sign of the PV gradient where the wind magnitude is below the threshold (zero where the gradient is zero), and is never
NaN. It is the same for a state, a 2D wind field or a zonal-mean profile of that flow up to truncation error of the derivative, and the complex, real and squared variants are consistent representations of one
number. Unknown variants are refused.""",
["inputs", "configurations"],
"all zonal-mean flows (easterlies, zero wind, weak wind), thresholds, derivative orders, planets",
"Tests only look at the shape for solid-body rotations.",
[D, S], [("diagnostics.stationary_wavenumber", D)], ["diagnostics.stationary_wavenumber", "State.stationary_wavenumber"])

prop("C23", "Waveguides partition the latitudes at the wavenumber threshold",
"""The extracted waveguides are disjoint latitude intervals ordered from north to south with finite limits in [-90, 90] that contain exactly the gridpoints whose stationary wavenumber reaches the given wavenumber (points of exact
equality may fall on a limit or be counted as outside), for profiles with any number of crossings, infinite or imaginary values. Each limit is a pole or the linearly interpolated crossing between its two neighbouring gridpoints (between the finite point and the infinite
neighbour at the end that makes the waveguide include the interval to +infinity and exclude the one to -infinity).""",
["inputs", "configurations"],
"all stationary wavenumber profiles (finite, infinite, imaginary) and wavenumbers on all grids",
"No test calls the extraction; a profile leaving -infinity gave NaN limits.",
[D], [("diagnostics.extract_ks_waveguides", D)], ["diagnostics.extract_ks_waveguides", "State.extract_ks_waveguides"])

prop("C24", "Wave packet diagnostics recover known waves",
"""At every latitude the Fourier-based dominant wavenumber is the zonal wavenumber with the largest power inside the given (inclusive) range, optionally smoothed meridionally, and the wavelet-based one is within the resolution of its scales for a
single wave (up to wavenumber 20, on fine and coarse grids) and shifts with the field in longitude. The Hilbert envelope is the modulus of the analytic signal of the field restricted to the given (inclusive) wavenumber range: it is at least the modulus of the restricted field, equals the amplitude of a single wave inside the
range, is zero for waves outside and shifts with the field.""",
["inputs", "configurations"],
"all fields, wavenumber ranges, amplitudes and phases on all grids",
"No test checks a value; the Fourier-based number was wrong by the lower range limit.",
[D, S], [("dominant_wavenumber_fourier / _wavelet, envelope_hilbert", D), ("State.v_envelope_hilbert", S)],
["diagnostics functions", "State.v_envelope_hilbert"])

prop("C25", "Wavenumber-based smoothing is a local normalized Hann average",
"""The filtered value at each gridpoint is the periodic zonal Hann-weighted average of the field whose window half-width (full width at half maximum) is the number of gridpoints per wavelength of the wavenumber given there, with wavenumbers limited to between 1 and half the number of
longitudes. Weights sum to one, so constants are preserved and values stay within the range of their latitude circle; each latitude depends on itself only; profiles and the equivalent 2D wavenumber fields give the same result. The state's filtered wave activity is this filter applied to its
local wave activity with twice the dominant Fourier wavenumber of its meridional wind.""",
["inputs", "configurations"],
"all fields and wavenumber fields, including out-of-range and fractional wavenumbers",
"No test calls it; with current scipy it failed on every call.",
[D, S], [("diagnostics.filter_by_wavenumber", D), ("State.falwa_filtered", S)],
["diagnostics.filter_by_wavenumber", "State.falwa_filtered"])

prop("C26", "Datasets exported from states hold exactly their fields",
"""The exported dataset contains exactly the requested fields (by name, list, or mapping of names to attributes or functions), each with the values of the states in their order and with dimensions that match its shape (index, latitude, longitude,
or the subset for profiles and scalars), labelled by the grid's coordinates and the states' times, whose units are stated (degrees_north, degrees_east and s for numeric times; the dataset names the package version). With another index dimension the values of that attribute of the states label it, or consecutive integers if there is no such attribute. Any iterable of
states, a single state and nothing at all are accepted, and states on different grids are refused.""",
["inputs", "configurations"],
"all collections of states, field specifications, time types and index dimensions",
"Tests check dimension names for rest states on one grid, never a value.",
[IO, S], [("io.as_dataset", IO), ("StateList.as_dataset", S)], ["xarray.Dataset returned by as_dataset"])

prop("C27", "Import reproduces every field of a valid dataset and rejects others",
"""Importing a dataset yields one state per combination of its non-horizontal coordinates, in row-major order, built from wind, else relative vorticity, else absolute vorticity, under the built-in or given names, with the time of each field as number or datetime (the fill value if there is none) and on a grid with the
dataset's coordinates and the given planet. Exporting a collection of states and importing it again reproduces the flow, order and times, also if times repeat and for any resolution or coordinate precision (single precision, rounded to 5 decimals). Data without required coordinates or fields, with irregular, regional, flipped or mismatched coordinates or with latitude and longitude not last
is refused.""",
["inputs", "configurations"],
"all datasets: dimension orders and counts, names, precisions, time types, repeated labels, resolutions",
"Tests import zero-wind data on one 10 degree grid, so order, selection and values of the fields are never seen.",
[IO], [("io.from_dataset", IO)], ["StateList returned by from_dataset", "exceptions"])

prop("C28", "Exchange with the falwa package is lossless",
"""Converting a state for the falwa package gives an object with the same PV field and latitudes running from south to north, so that every gridpoint keeps its value and coordinate, and keyword arguments reach its constructor. Converting back, with the
original grid or with a grid made to match, gives the original PV at the requested time, and a target grid of other size is refused.""",
["inputs", "configurations"],
"all states, grids and times",
"No test converts states.",
[S], [("State.as_hn2016 / from_hn2016", S)], ["falwa BarotropicField attributes", "State"])

prop("C29", "A state collection is an immutable sequence that maps faithfully",
"""A state collection keeps its states in order, supports the sequence operations (length, iteration, integer and negative index, membership, reversal, concatenation), never changes after construction (even if the iterable it was built from does) and survives copying and pickling. Attribute access and method calls on it return, in order, what the individual states
return, stacked into an array for arrays and numbers, into a collection for states and into a list otherwise, and mapping a function with extra arguments calls it exactly once per state in order. Non-states are refused and unknown attributes raise AttributeError on a non-empty collection.""",
["inputs", "histories"],
"all lists of states (also empty and single), attributes, methods and functions",
"Tests look at shapes and container types for one list.",
[S], [("StateList", S), ("sequence conversion", S)], ["StateList operations", "callback events of map()"])

prop("C30", "Plots show every field at its true position",
"""In every plot preset, for every central longitude and hemisphere choice, what is drawn at a position labelled with some longitude and latitude is the state's field (PV, vectors, wind, streamfunction, wave activity, envelope) at that longitude and latitude, line plots show the documented zonal means and profiles, and the hemisphere choice limits the latitude
axis. Panel titles, line labels, legends and colour bars belong to what is drawn; unless the maximum is overridden the levels of a filled map reach as far as its field; colour maps, figure sizes and overrides given by the caller are applied. The state's plotting shortcuts draw the same figures as the functions. Data helpers (vector thinning, Hovmoeller data, symmetric levels, roll functions, waveguide ticks that include 0) keep values attached to their coordinates.""",
["inputs", "configurations"],
"all states, central longitudes, hemispheres and grids",
"There are no tests of plotting; wind vectors were drawn at wrong longitudes unless the map centre was 180.",
[P, S], [("plot presets, roll_lon, reduce_vectors, hovmoellerify", P), ("StatePlotter", S)],
["calls received by matplotlib Axes", "tick labels and limits of the figures", "helper return values"])

prop("C31", "Text representations always work and tell the truth",
"""Every grid, region (including empty, single-point and 0-crossing ones), state, state collection, model and forcing term has a text representation that never raises, whatever type its time or parameters have. The time text converts to the stated unit without changing the value beyond its printed precision, and the
numbers printed (shape, resolution, radius, rotation, truncation, region limits and sizes, diffusion settings, number of states) are those of the object; the region map marks exactly the boxes (10 degrees of longitude by 20 degrees of latitude) that contain selected points (points on a box edge may count for either neighbour), its labels are at their coordinates.""",
["inputs", "configurations"],
"all objects of the public API and all times",
"No test prints an object; printing failed for imported states with numeric times and for empty regions.",
[F, G, S, M, R], [("formatting module and __repr__ methods", F)], ["repr()", "formatting.format_time"])

prop("C32", "Meridional interpolation passes through its data",
"""Interpolating profiles or fields given on any latitudes (in any order, with or without the poles, of any number type), onto the latitudes of the grid or any others, returns the given values at the given latitudes and exactly the given pole values at the poles (which take precedence over input data at
the poles). In between it is by default linear between the two neighbouring values, separately for each column; other kinds are those of scipy's interpolation. Data of wrong rank or length, wrong numbers of pole values, unknown kinds and latitudes beyond the poles are refused.""",
["inputs", "configurations"],
"all input latitudes, orders, data, pole values, kinds and target latitudes",
"Interpolation is only tested through shapes of diagnostics; integer profiles got truncated pole values.",
[G], [("Grid.interpolate_meridional / interp1d_meridional", G)], ["Grid.interpolate_meridional", "functions returned by Grid.interp1d_meridional"])

prop("C33", "Threads may share grids, states, models and terms",
"""Threads that use the same grids, states, state collections, regions, models, forcing terms and input arrays at the same time each get the results they would get alone, in every interleaving: derived fields that are read for the first time by several threads, diagnostics, transforms,
arithmetic, forcing terms on many grids, steps and runs of shared models, import and export (everything except figures). No call raises because of another thread, and the shared objects are unchanged afterwards.""",
["schedules", "histories"],
"all interleavings of calls of several threads on shared objects",
"No test uses a second thread; cached fields and gradients are filled without locks, so each intermediate state is visible to other threads.",
[S, G, D, M, R, IO], [("lazily computed fields", S), ("transforms and operators of shared grids", G), ("cached orography gradients", R), ("shared models", M)],
["results of every call in every thread", "State attributes after all threads have ended"])

prop("C34", "Interrupted, failing and refused calls leave no trace",
"""If a call is ended by an exception at any point (keyboard interrupt, lack of memory, floating point errors turned into exceptions, exceptions raised in user-defined forcing terms, orographies, mapped functions, export functions or iterators, refused input), the caller receives this very exception, at once and without
further calls of the user's code, and all objects and inputs are as before: every later call, including the repetition of the same call on the same objects, gives the result it would have given without the failure.""",
["crash_points", "histories"],
"all calls, all points of interruption, all exceptions of user code",
"Tests only call with valid input and check some refusals; none uses an object after a failure.",
[S, G, D, M, R, IO], [("lazily computed fields", S), ("integration loop and steps", M), ("cached orography gradients", R), ("StateList.map, as_dataset", S)],
["the exception that reaches the caller", "digests and results after a failure"])

prop("C35", "Arguments mean the same by position, by name and by default",
"""Every public function, method and constructor takes its arguments in the documented order and under the documented names, and leaving out an optional argument is the same as giving its documented default, in every combination of positional, named and omitted arguments: Grid(resolution=2.5, rsphere,
omega of the Earth, ntrunc=None, legfunc="stored"), BarotropicModel(rhs=None, diffusion_order=2, diffusion_coeff=1e15, diffusion_bg=None), run(state_init, dt, tend, save_every=0), leapfrog(..., filter_parameter=0.2), initial conditions (time=0; amplitudes, latitudes and widths), orographies (scale_height=10000,
wind=("act", 1), fcor_ref=None; heights, centers and widths), derivatives (order=4), solvers (op_add=0, order=1), means, quadratures (sptrapz), zonalization and wave activity (levels=None, interpolate=True, quad="sptrapz"), wavenumber diagnostics and their smoothing, export (fields=("u", "v"), concat_dim="time") and
plots. Shortcuts of states, collections and plotters pass all of their arguments on.""",
["inputs", "configurations"],
"all public operations, all splits into positional, named and omitted arguments, all values",
"Tests use one calling style per operation and never compare styles; shortcuts that forward arguments are hardly called with any.",
[G, S, D, M, R, IO, "src/barotropic/init.py", "src/barotropic/plot.py"], [("signatures of the public interface", G), ("State.run, StateList.run, State.plot, StateList.as_dataset", S), ("Orography and its subclasses", R)],
["results of equivalent calls"])

prop("C36", "Work of any length needs bounded memory",
"""Nothing is retained beyond need. However many steps a run takes, besides the saved states only a small constant number of states is alive at any time, its peak memory does not grow with the number of steps, and results that the caller drops are released. Repeating any call, on the same objects or on new states of the same grid, does not accumulate objects or
arrays. Grids, states, models, terms and collections that the caller has dropped are released together with their arrays, apart from a small constant number of cached ones, and models, terms and mappings that live on do not collect the states and planets they were used with (figures that pyplot keeps open excepted).""",
["inputs", "histories"],
"all public operations, numbers of steps, repetitions and planets",
"Tests take a few steps on a few objects and never look at memory: a run that keeps all its states, a cache without limit or a state that refers to its predecessor passes all of them.",
["src/barotropic/model.py", S, R, "src/barotropic/grid.py", D], [("run, euler, leapfrog", "src/barotropic/model.py"), ("cached properties", S), ("cache of orography gradients", R)],
["living objects (garbage collector) in forcing callbacks and after calls", "bytes of traced array data"])

prop("C37", "Every process gets the same results from what it has installed",
"""The optional packages (matplotlib, pywt, falwa, xarray) are needed only by what uses them: with any subset of them missing, the package is importable (with all of its public names), every operation that can do without the missing ones gives the same results as ever, and operations that cannot are refused with an exception, without influence on later ones. Results of valid calls do not depend on the interpreter's
options (-O, -OO, -bb, -X dev, ...), on the environment (hash seed, time zone, locale, numbers of threads, home directory), on the thread, on a fork between creation and use, on the working directory (even without access to it) or on the standard streams (even closed ones). The import itself changes no settings of the process (numpy, matplotlib, xarray, warnings, random states, signals, locale, environment, files) and prints nothing
to the standard output. Grids, states and collections that are pickled in one process are equal in another: same fields and results, grids that are equal to and have the same hash as new ones of the same planet. (Refusals of invalid arguments may disappear under -O.)""",
["inputs", "configurations", "histories"],
"all public operations, all subsets of the optional packages, interpreter options, environments, threads and forks",
"Tests run in one process with all packages installed, assertions and docstrings active and one environment.",
[P, D, IO, S, G, "src/barotropic/__init__.py", "src/barotropic/model.py", R], [("conditional import of matplotlib", P), ("dominant_wavenumber_wavelet", D), ("as_dataset", IO), ("State.as_hn2016, State.from_hn2016", S), ("Grid.__eq__, Grid.__hash__", G)],
["results of operations in fresh processes", "settings of the process around the import", "exceptions of operations without their package"])

def main():
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(path, "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p, ensure_ascii=True) + "\n")
if __name__ == "__main__":
    main()
