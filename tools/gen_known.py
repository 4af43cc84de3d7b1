"""Writes /verif/known_findings.json: every genuine defect found. status "fixed" suppresses nothing."""
import json, os, subprocess
FIXED = [
 ("C04", "62b77de", "Grid.vorticity_divergence raised NameError for every input (self missing in a call)"),
 ("C09", "bb6bfd0", "Grid.equivalent_latitude raised for scalar areas"),
 ("C25", "2b3567c", "diagnostics using a Hann window raised (scipy.signal.hann is gone)"),
 ("C24", "1c69246", "dominant_wavenumber_fourier returned wavenumbers shifted by ignoring the lower end of the range"),
 ("C01", "be330ef", "Grid(360/nlon) lost a longitude and latitude for 54 even nlon below 4000, e.g. nlon=338, 474"),
 ("C21", "f7a2eb5", "interp1d_meridional gave NaN for 2D fields on input latitudes that include a pole"),
 ("C27", "7bea1e7", "from_dataset put 0-dimensional arrays into State.time for numeric times (also C31: repr raised)"),
 ("C27", "e77d004", "from_dataset raised or mixed up fields for repeated or missing coordinate values"),
 ("C27", "2f3a67b", "from_dataset accepted longitudes/latitudes shifted away from 0E/90N"),
 ("C26", "50b5513", "as_dataset raised for an iterator without states"),
 ("C29", "4703711", "copy and unpickling of a StateList ended in infinite recursion"),
 ("C31", "bdde2fe", "repr of an empty region raised IndexError"),
 ("C02", "930f229", "Grids of slowly rotating planets compared equal, comparison with other objects raised, hash contradicted eq"),
 ("C05", "25c55c4", "high-order implicit diffusion returned NaN (single precision eigenvalue powers)"),
 ("C05", "3a621cd", "solve_poisson dropped the global mean of the solution for op_add != 0"),
 ("C17", "6ae8299", "BarotropicModel.run saved states on multiples of save_every of absolute time instead of from the start"),
 ("C17", "2dfe113", "BarotropicModel.run returned a plain list if the end lies before the start"),
 ("C09", "c85c3a6", "Grid.zonalize took a numpy integer number of levels for an array of levels"),
 ("C23", "fb26618", "extract_ks_waveguides gave NaN boundaries next to an infinite imaginary wavenumber"),
 ("C30", "fc5bfb0", "plot.summary drew wind vectors at wrong longitudes unless center_lon=180"),
 ("C30", "c252205", "plot.waveguides ticks did not always include 0"),
 ("C20", "ae5bb54", "GaussianMountain was cut off at the 0 degree meridian"),
 ("C30", "c576816", "roll_lon did not find the closest meridian across 0 degrees"),
 ("C30", "3b06ab1", "wave activity and wave packet plots raised for constant PV"),
 ("C10", "50345d3", "window filters truncated the result for integer fields"),
 ("C26", "5777d95", "as_dataset(concat_dim='run' or other method names) raised instead of numbering the states"),
 ("C27", "3d25a52", "from_dataset refused single precision coordinates of most resolutions (e.g. 182 or 362 longitudes) as irregular"),
 ("C07", "346738b", "quad_meridional (sptrapz) wrapped around for small and unsigned integer fields, raised for boolean fields"),
 ("C06", "cb8bd3e", "derivative_meridional wrapped around for small and unsigned integer fields, raised for boolean fields"),
 ("C04", "1f1e673", "vorticity and divergence wrong for winds given as unsigned integers"),
 ("C30", "8a8b263", "symmetric_levels wrapped around for small and unsigned integer fields (e.g. int8 with -128)"),
 ("C09", "8aad78b", "zonalize wrapped around for small and unsigned integer fields, raised for boolean fields"),
 ("C32", "2ef1dbd", "interpolation of integer profiles truncated the pole values to integers"),
 ("C21", "c59e7c0", "falwa wrapped around for small and unsigned integer PV with integer contour levels"),
 ("C24", "7b2582d", "dominant_wavenumber_wavelet could not find planetary waves on fine grids (wave 2 at 0.5 degrees gave 3.75) nor short waves on coarse grids (wave 10 at 15 degrees gave 0.15)"),
 ("C11", "7d09078", "regions lost gridpoints named as their bounds where the coordinates have rounding errors (region[7.2:30] on a 2.4 degree grid starts at 9.6; 'N' or 'S' without the equator for 156 longitudes)"),
 ("C14", "8f66fd3", "State.add_wind with a (u,v)-tuple replaced the wind instead of adding"),
]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {"findings": [{"property": p, "status": "fixed", "commit": h, "key": None, "what": f"fixed: property={p} {h} {w}"} for p, h, w in FIXED]}
with open(os.path.join(here, "known_findings.json"), "w") as f:
    json.dump(out, f, indent=1); f.write("\n")
