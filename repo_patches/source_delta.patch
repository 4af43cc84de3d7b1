From 62b77de1c07386067db381d4c9b1163ccb92d172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 01/37] fix: Grid.vorticity_divergence called a method without
 self (NameError)

---
 src/barotropic/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 315f60f..229d739 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -268,7 +268,7 @@ class Grid:
         Returns:
             Tuple of gridded (vorticity, divergence) fields.
         """
-        vort, div = vorticity_divergence_spectral(u, v)
+        vort, div = self.vorticity_divergence_spectral(u, v)
         return self.to_grid(vort), self.to_grid(div)
 
     def vorticity_divergence_spectral(self, u, v):
-- 
2.43.0


From bb6bfd02d0e713e1598d6aa630605bd04be80e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:26 +0000
Subject: [PATCH 02/37] fix: Grid.equivalent_latitude failed for scalar areas

---
 src/barotropic/grid.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 229d739..1552b20 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -591,8 +591,7 @@ class Grid:
         # Calculate argument of arcsin
         sine = 1. - 0.5 * area / np.pi / self.rsphere**2
         # Make sure argument of arcsin is in [-1, 1]
-        sine[sine >=  1] =  1
-        sine[sine <= -1] = -1
+        sine = np.clip(sine, -1., 1.)
         # Equivalent latitude in degrees
         return np.rad2deg(np.arcsin(sine))
 
-- 
2.43.0


From 2b3567c4177db380c9f30ce365112be595419604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:33 +0000
Subject: [PATCH 03/37] fix: use scipy.signal.windows.hann, the alias
 scipy.signal.hann was removed from scipy

---
 src/barotropic/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/diagnostics.py b/src/barotropic/diagnostics.py
index 0e3e01c..f88d828 100644
--- a/src/barotropic/diagnostics.py
+++ b/src/barotropic/diagnostics.py
@@ -216,7 +216,7 @@ def filter_by_wavenumber(field, wavenumber):
             convs.append(np.zeros_like(field))
             continue
         # Obtain the normalized Hann window for the current width
-        hann = scipy.signal.hann(width)
+        hann = scipy.signal.windows.hann(width)
         hann = hann / np.sum(hann)
         # Apply window along the zonal axis
         convs.append(scipy.signal.convolve2d(field, hann[None,:], mode="same", boundary="wrap"))
-- 
2.43.0


From 1c692461662bb09cfb8dde3662eb4338291f802b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:39 +0000
Subject: [PATCH 04/37] fix: dominant_wavenumber_fourier ignored the lower end
 of the wavenumber range

---
 src/barotropic/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/diagnostics.py b/src/barotropic/diagnostics.py
index f88d828..f40f0da 100644
--- a/src/barotropic/diagnostics.py
+++ b/src/barotropic/diagnostics.py
@@ -116,7 +116,7 @@ def dominant_wavenumber_fourier(field, grid, smooth=("boxcar", 10), wavenumber_r
     # Compute Fourier power spectrum and determine wavenumber with maximum
     # power in the specified wavenumber range
     power = np.abs(np.fft.rfft(field, axis=_ZONAL)) ** 2
-    k_dom = np.argmax(power[:,k_min:k_max+1], axis=_ZONAL).astype(float)
+    k_dom = k_min + np.argmax(power[:,k_min:k_max+1], axis=_ZONAL).astype(float)
     # Apply smoothing if desired
     return k_dom if smooth is None else grid.filter_meridional(k_dom, *smooth)
 
-- 
2.43.0


From be330ef16d820f4cbc7c184da682c816cf40ceb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:45 +0000
Subject: [PATCH 05/37] fix: Grid lost a gridpoint for resolutions without
 exact floating point representation

---
 src/barotropic/grid.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 1552b20..991d8d8 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -49,8 +49,10 @@ class Grid:
         # Setup longitude and latitude grid. Make sure longitude 0° is not
         # repeated and that both latitudes 90° and -90° exist. Latitudes start
         # at the North pole, which is the convention used by pyspharm.
-        self.nlon = int(360. / resolution)
-        self.nlat = int(180. / resolution) + 1
+        # Rounding makes sure that resolutions without an exact floating point
+        # representation don't lose their last gridpoint.
+        self.nlon = int(round(360. / resolution, 3))
+        self.nlat = int(round(180. / resolution, 3)) + 1
         self.lon = np.linspace( 0., 360., self.nlon, endpoint=False)
         self.lat = np.linspace(90., -90., self.nlat, endpoint=True)
         self.lon2, self.lat2 = np.meshgrid(self.lon, self.lat)
-- 
2.43.0


From f7a2eb586f53f88d1d25885426a25edbde5a9779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:49 +0000
Subject: [PATCH 06/37] fix: meridional interpolation of 2D fields yielded NaN
 if input latitudes include a pole

---
 src/barotropic/grid.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 991d8d8..9a08e6d 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -683,6 +683,11 @@ class Grid:
         """
         assert 1 <= field.ndim <= 2
         assert len(pole_values) == 2
+        # The pole values take precedence over values on the poles in the
+        # input, duplicate x-values would lead to NaNs in the interpolation
+        lat = np.asarray(lat)
+        inner = np.abs(lat) < 90.
+        lat, field = lat[inner], field[inner]
         pad = (1, 1) if field.ndim == 1 else ((1, 1), (0, 0))
         axis = -1    if field.ndim == 1 else MERIDIONAL
         x = np.pad(lat, pad_width=(1, 1), mode="constant", constant_values=(90., -90.))
-- 
2.43.0


From 7bea1e7ea802a92be572bd932694009356c2d84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:22 +0000
Subject: [PATCH 07/37] fix: from_dataset put 0-dimensional arrays into
 State.time for numeric times

---
 src/barotropic/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index 9188ad8..16a3154 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -333,7 +333,7 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
         # back to fill value
         time = time_fill
         if var_map["time"] in field.coords:
-            time = field.coords[var_map["time"]].values
+            time = field.coords[var_map["time"]].values[()]
             # Convert numpy datetime type into a regular datetime instance
             if isinstance(time, np.datetime64):
                 # https://stackoverflow.com/questions/13703720/, but
-- 
2.43.0


From e77d0049bfcfc45ab812ac419e561131a4692949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:30 +0000
Subject: [PATCH 08/37] fix: from_dataset failed for dimensions with repeated
 or without coordinate values

---
 src/barotropic/io.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index 16a3154..ff32596 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -295,19 +295,19 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
         data = ds[var_map["u"]]
         # Two fields required to initialize: proceed with DataArray of u for
         # data, and select matching v field during construction of the State
-        def as_state(t, da):
+        def as_state(t, da, idx):
             u = da.values
-            # Select matching meridional wind field (dims_flatten assigned below)
-            v = ds[var_map["v"]].sel({ dim: da.coords[dim] for dim in dims_flatten }).values
+            # Select matching meridional wind field (same indices as u)
+            v = ds[var_map["v"]].isel(idx).values
             return State.from_wind(grid, t, u, v)
     # States from relative vorticity
     elif var_map["vo"] is not None:
         data = ds[var_map["vo"]] # DataArray, no further selection necessary
-        as_state = lambda t, da: State.from_vorticity(grid, t, da.values)
+        as_state = lambda t, da, idx: State.from_vorticity(grid, t, da.values)
     # States from absolute vorticity
     elif var_map["avo"] is not None:
         data = ds[var_map["avo"]] # DataArray, no further selection necessary
-        as_state = lambda t, da: State(grid, t, pv=da.values)
+        as_state = lambda t, da, idx: State(grid, t, pv=da.values)
     else:
         raise ValueError(
             "no fields for state construction detected, please specify"
@@ -320,15 +320,17 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
     # Only 1-dimensional StateList output supported, so all dimensions other
     # than lon and lat are flattened
     dims_flatten = data.dims[:-2]
-    dims_values = [data.coords[dim].values for dim in dims_flatten]
+    dims_ranges = [range(data.sizes[dim]) for dim in dims_flatten]
 
     states = []
     # Because itertools.product returns an empty tuple when called without any
-    # arguments (here: when dims_values is empty), this also covers the case of
+    # arguments (here: when dims_ranges is empty), this also covers the case of
     # single field input with no flattened dimensions
-    for selection in itertools.product(*dims_values):
-        # Extract the current lon-lat field
-        field = data.sel(dict(zip(dims_flatten, selection)))
+    for selection in itertools.product(*dims_ranges):
+        # Extract the current lon-lat field (select by position because values
+        # of coordinates may repeat)
+        idx = dict(zip(dims_flatten, selection))
+        field = data.isel(idx)
         # Try to use time value from coordinates if possible, otherwise fall
         # back to fill value
         time = time_fill
@@ -342,7 +344,7 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
                 timestamp = (time - np.datetime64(0, "s")) / np.timedelta64(1, "s")
                 time = dt.datetime.fromtimestamp(timestamp, dt.timezone.utc).replace(tzinfo=None)
         # Create State and add to collection
-        states.append(as_state(time, field))
+        states.append(as_state(time, field, idx))
 
     return StateList(states)
 
-- 
2.43.0


From 2f3a67bb5923a71bc0d7224baa4de014e32b0b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:38 +0000
Subject: [PATCH 09/37] fix: from_dataset put data with shifted coordinates on
 a grid with other coordinates

---
 src/barotropic/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index ff32596..69e7b8f 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -264,6 +264,7 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
     lon = ds.coords[var_map["lon"]]
     assert lon.ndim == 1, "lon coordinate must be one-dimensional"
     assert lon.size > 0, "lon coordinate is empty"
+    assert np.isclose(lon[0], 0., atol=1e-3), "lon coordinate must start at 0°"
     dlons = np.diff(lon.values)
     dlon = dlons[0]
     assert np.isclose(dlon, dlons).all(), "lon spacing is not regular"
@@ -276,6 +277,7 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
     lat = ds.coords[var_map["lat"]] # also ensures extracted var is a coordinate
     assert lat.ndim == 1, "lat coordinate must be one-dimensional"
     assert lat.size > 0, "lat coordinate is empty"
+    assert np.isclose(abs(lat[0]), 90., atol=1e-3), "lat coordinate must start at a pole"
     assert lat.size - 1 == lon.size // 2, f"grid of shape [{lat.size}, {lon.size}] is not regular"
     dlats = np.diff(lat.values)
     dlat = dlats[0]
-- 
2.43.0


From 50b551303daca1d7af937e975e073069e793b772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 10/37] fix: as_dataset failed for an iterator without states

---
 src/barotropic/io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index 69e7b8f..ef9a0b6 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -65,14 +65,14 @@ def as_dataset(states, fields=("u", "v"), concat_dim="time"):
     """
     import xarray as xr
     from . import __version__
-    # Empty input
-    if not states:
-        return xr.Dataset()
     # Compatibility for single-state input
     if isinstance(states, State):
         states = [states]
     # Convert into state collection for accessors and basic integrity checks
     states = StateList(states)
+    # Empty input
+    if not states:
+        return xr.Dataset()
     # Extract basic coordinates
     coords = dict()
     coords["latitude"] = xr.DataArray(states.grid.lat, dims=["latitude"], attrs={
-- 
2.43.0


From 4703711ee44ac6736e991e16a881d883b8052f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:51 +0000
Subject: [PATCH 11/37] fix: copying or unpickling a StateList ended in
 infinite recursion

---
 src/barotropic/state.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/barotropic/state.py b/src/barotropic/state.py
index 628d87c..722acb8 100644
--- a/src/barotropic/state.py
+++ b/src/barotropic/state.py
@@ -462,6 +462,10 @@ class StateList(collections.abc.Sequence):
         # from the invocation on every State in the StateList. Separate
         # attributes and methods by checking if the (unbound) method exists on
         # the State class.
+        # Special attributes are never broadcasted. The states don't exist yet
+        # when instances are recreated by copy or pickle.
+        if name == "_states" or name.startswith("__"):
+            raise AttributeError(name)
         attr = getattr(State, name, None)
         if callable(attr):
             return functools.partial(self.map, attr)
-- 
2.43.0


From bdde2fe7bb76d8db7680a0a7387d29c5f2bf1c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:54 +0000
Subject: [PATCH 12/37] fix: repr of an empty region raised IndexError

---
 src/barotropic/formatting.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/barotropic/formatting.py b/src/barotropic/formatting.py
index 98ed87c..655b271 100644
--- a/src/barotropic/formatting.py
+++ b/src/barotropic/formatting.py
@@ -50,9 +50,12 @@ def grid_region_repr(region):
     out[4] += " EQ"
     out[8] += " 90°S"
     out.append("    0°E              180°E")
+    # Empty selections don't have limits
+    lat = region.lat if region.lat.size > 0 else np.array([np.nan])
+    lon = region.lon if region.lon.size > 0 else np.array([np.nan])
     return "\n".join([
-        "Region {:6.2f} to {:6.2f} °N (nlat = {})".format(*region.lat[[-1,0]], region.shape[0]),
-        "       {:6.2f} to {:6.2f} °E (nlon = {})".format(*region.lon[[0,-1]], region.shape[1]),
+        "Region {:6.2f} to {:6.2f} °N (nlat = {})".format(*lat[[-1,0]], region.shape[0]),
+        "       {:6.2f} to {:6.2f} °E (nlon = {})".format(*lon[[0,-1]], region.shape[1]),
         "", *out, "",
         "of {}".format(repr(region._grid))
     ])
-- 
2.43.0


From 930f2299239fe4c8819ecb2cf63959f40f55de03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:01 +0000
Subject: [PATCH 13/37] fix: Grid comparison confused slowly rotating planets,
 failed for other objects and was inconsistent with the hash

---
 src/barotropic/grid.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 9a08e6d..845a88f 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -86,15 +86,21 @@ class Grid:
         return formatting.grid_repr(self)
 
     def __eq__(self, other):
+        if not isinstance(other, Grid):
+            return NotImplemented
+        # Purely relative comparison, slow rotation rates are much smaller than
+        # the default absolute tolerance
         return (
             self.shape == other.shape
-            and np.isclose(self.rsphere, other.rsphere)
-            and np.isclose(self.omega, other.omega)
+            and np.isclose(self.rsphere, other.rsphere, atol=0.)
+            and np.isclose(self.omega, other.omega, atol=0.)
             and self._ntrunc == other._ntrunc
         )
 
     def __hash__(self):
-        return hash((self.shape, self.rsphere, self.omega, self._ntrunc))
+        # Equal grids must have equal hashes, so only include properties that
+        # are compared exactly
+        return hash((self.shape, self._ntrunc))
 
     @property
     def shape(self):
-- 
2.43.0


From 25c55c458d8a50ce8990392d204a55a4f4a21c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:07 +0000
Subject: [PATCH 14/37] fix: high-order diffusion yielded NaN because of single
 precision under- and overflow

---
 src/barotropic/grid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 845a88f..f86da13 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -415,8 +415,9 @@ class Grid:
 
     def solve_diffusion_spectral(self, field_spectral, coeff, dt, order=1):
         """:py:meth:`solve_diffusion` with spectral in- and output fields."""
-        eigenvalues_op = self._laplacian_eigenvalues ** order
-        return field_spectral / (1. + dt * coeff * eigenvalues_op)
+        # Powers of the eigenvalues can exceed the range of single precision
+        eigenvalues_op = self._laplacian_eigenvalues.real.astype(float) ** order
+        return (field_spectral / (1. + dt * coeff * eigenvalues_op)).astype(field_spectral.dtype)
 
     # Area-weighted operators
 
-- 
2.43.0


From 3a621cd92f44b56731b0d0d1d9f629ed3dacc658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 15/37] fix: solve_poisson dropped the global mean of the
 solution for non-zero op_add

---
 src/barotropic/grid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index f86da13..3194c57 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -388,6 +388,9 @@ class Grid:
         """:py:meth:`solve_poisson` with spectral in- and output fields."""
         solution = np.zeros_like(rhs_spec)
         solution[1:] = -rhs_spec[1:] / (self._laplacian_eigenvalues[1:] + op_add)
+        # The global mean is only determined with the additional term
+        if op_add != 0:
+            solution[0] = -rhs_spec[0] / op_add
         return solution
 
     def solve_diffusion(self, field_grid, coeff, dt, order=1):
-- 
2.43.0


From 6ae829921463b21de04463fdff8c1cc11e010fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:21 +0000
Subject: [PATCH 16/37] fix: BarotropicModel.run ignored the start time in the
 schedule of saved states

---
 src/barotropic/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/model.py b/src/barotropic/model.py
index e480e8e..b2a39c5 100644
--- a/src/barotropic/model.py
+++ b/src/barotropic/model.py
@@ -83,7 +83,7 @@ class BarotropicModel:
         # applied to model state at the end
         while state.time < tend:
             state, state_new = self.leapfrog(state, state_new)
-            if save_every > 0 and state.time >= t_save:
+            if save_every > 0 and _to_seconds(state.time - state_init.time) >= t_save:
                 states.append(state)
                 t_save += save_every
         return state, StateList(states)
-- 
2.43.0


From 2dfe1137a7e35eab017feb48065897d29dbdbd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:29 +0000
Subject: [PATCH 17/37] fix: BarotropicModel.run returned a plain list if the
 end is before the start

---
 src/barotropic/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/model.py b/src/barotropic/model.py
index b2a39c5..4cd58bd 100644
--- a/src/barotropic/model.py
+++ b/src/barotropic/model.py
@@ -71,7 +71,7 @@ class BarotropicModel:
 
         """
         if tend < state_init.time:
-            return state_init, [state_init]
+            return state_init, StateList([state_init])
         # First integration with Euler forward step (multistep leapfrog scheme
         # requires initialization)
         state = self.euler(state_init, dt)
-- 
2.43.0


From c85c3a661f20f565ad15aeaa2c597f600b17b254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:37 +0000
Subject: [PATCH 18/37] fix: Grid.zonalize did not recognize numpy integers as
 number of levels

---
 src/barotropic/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 3194c57..f2dc1f8 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -648,7 +648,7 @@ class Grid:
         # case as it resembles the distribution of planetary PV. Omit min and
         # max contours as field >= min everywhere and field >= max most likely
         # only in a single point.
-        if isinstance(levels, int):
+        if isinstance(levels, (int, np.integer)):
             _ = 0.5 * np.pi * np.linspace(-1, 1, levels+2)[1:-1]
             q = 0.5 * ((q_max - q_min) * np.sin(_) + q_min + q_max)
         # Otherwise use the given contour values
-- 
2.43.0


From fb2661876d1c2064af0562f554349ea00978ca60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:44 +0000
Subject: [PATCH 19/37] fix: extract_ks_waveguides yielded NaN for a waveguide
 that starts next to an infinite imaginary wavenumber

---
 src/barotropic/diagnostics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/barotropic/diagnostics.py b/src/barotropic/diagnostics.py
index f40f0da..cfc1ad6 100644
--- a/src/barotropic/diagnostics.py
+++ b/src/barotropic/diagnostics.py
@@ -352,7 +352,10 @@ def extract_ks_waveguides(ks_or_state, k, grid=None):
             active = False
         # Waveguide starts if ks exceeds k
         elif not active and ks_s > k:
-            start = lat_n if np.isinf(ks_s) else lat_n - grid.dlat * (ks_n - k) / (ks_s - ks_n)
+            if np.isinf(ks_n) and not np.isinf(ks_s):
+                start = lat_n + grid.dlat
+            else:
+                start = lat_n if np.isinf(ks_s) else lat_n - grid.dlat * (ks_n - k) / (ks_s - ks_n)
             active = True
     # Last waveguide must end at south pole
     if active:
-- 
2.43.0


From fc5bfb0feacc7527f10dc55783a3c7ffb28d5300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:51 +0000
Subject: [PATCH 20/37] fix: wind vectors of plot.summary ignored center_lon

---
 src/barotropic/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/plot.py b/src/barotropic/plot.py
index 2957e88..0d4b076 100644
--- a/src/barotropic/plot.py
+++ b/src/barotropic/plot.py
@@ -177,7 +177,7 @@ def summary(state, figsize=(11, 7), hemisphere="both", center_lon=180, pv_cmap="
     fig.colorbar(pvc, ax=ax12)
     n_vectors = 13 if hemisphere == "both" else 21
     if not (np.linalg.norm(state.u) == 0. and np.linalg.norm(state.v) == 0.):
-        ax12.quiver(*reduce_vectors(grid.lon2, grid.lat2, state.u, state.v, n_vectors))
+        ax12.quiver(*reduce_vectors(grid.lon2, grid.lat2, roll(state.u), roll(state.v), n_vectors))
     configure_lon_x(ax12)
     configure_lat_y(ax12, hemisphere)
     ax12.set_title("PV [$10^{-4} \\mathrm{s}^{-1}$] and wind vectors", loc="left")
-- 
2.43.0


From c2522059c8f255dea2dc16ee85ba9f326dbe0eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:59 +0000
Subject: [PATCH 21/37] fix: wavenumber ticks of plot.waveguides did not always
 include 0

---
 src/barotropic/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/plot.py b/src/barotropic/plot.py
index 0d4b076..1baf131 100644
--- a/src/barotropic/plot.py
+++ b/src/barotropic/plot.py
@@ -375,7 +375,7 @@ def waveguides(state, k_waveguides=None, hemisphere="both", klim_bounds=(-5, 15)
     xmin = np.ceil(xmin)
     xmax = np.ceil(xmax)
     step = np.ceil((xmax - xmin) / 10)
-    xmin += xmin % step # guarantee that 0 is ticked
+    xmin += -xmin % step # guarantee that 0 is ticked
     ax2.set_xticks(np.arange(xmin, xmax, step))
     # Style y-axes as latitude and add a vertical line at 0
     for ax in (ax1, ax2):
-- 
2.43.0


From ae5bb544166f6e75a11777f18e2deb03a4bcc2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:07 +0000
Subject: [PATCH 22/37] =?UTF-8?q?fix:=20GaussianMountain=20was=20cut=20off?=
 =?UTF-8?q?=20at=20the=200=C2=B0=20meridian?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/barotropic/rhs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/barotropic/rhs.py b/src/barotropic/rhs.py
index 1611490..c46dbe5 100644
--- a/src/barotropic/rhs.py
+++ b/src/barotropic/rhs.py
@@ -210,9 +210,11 @@ class GaussianMountain(Orography):
         self._stdev_lat_sq = stdev[1] ** 2
 
     def orography(self, grid):
+        # Zonal distance from the center in the periodic domain
+        dlon = (grid.lon2 - self._center_lon + 180.) % 360. - 180.
         return (self._height
                 # Decaying in zonal direction
-                * ( np.exp(-0.5 * (grid.lon2 - self._center_lon)**2 / self._stdev_lon_sq) )
+                * ( np.exp(-0.5 * dlon**2 / self._stdev_lon_sq) )
                 # Decaying in meridional direction
                 * ( np.exp(-0.5 * (grid.lat2 - self._center_lat)**2 / self._stdev_lat_sq) ))
 
-- 
2.43.0


From c576816714d373b33c9cda2e014be19fd9b6b809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:14 +0000
Subject: [PATCH 23/37] =?UTF-8?q?fix:=20roll=5Flon=20did=20not=20find=20th?=
 =?UTF-8?q?e=20closest=20meridian=20across=200=C2=B0?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/barotropic/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/plot.py b/src/barotropic/plot.py
index 1baf131..1adfd56 100644
--- a/src/barotropic/plot.py
+++ b/src/barotropic/plot.py
@@ -75,7 +75,7 @@ def roll_lon(lon, center=180):
     """
     center = center % 360
     cur_mid = lon.size // 2
-    new_mid = np.argmin(np.abs(lon - center))
+    new_mid = np.argmin(np.abs((lon - center + 180.) % 360. - 180.))
     shift = cur_mid - new_mid
     return partial(np.roll, shift=shift, axis=_ZONAL), partial(configure_lon_x, offset=lon[shift])
 
-- 
2.43.0


From 3b06ab14f8757f09574b4623e054827ea2259720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:47 +0000
Subject: [PATCH 24/37] fix: wave activity and wave packet plots failed for
 constant PV

---
 src/barotropic/plot.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/barotropic/plot.py b/src/barotropic/plot.py
index 1adfd56..6e238cd 100644
--- a/src/barotropic/plot.py
+++ b/src/barotropic/plot.py
@@ -241,7 +241,8 @@ def wave_activity(state, figsize=(11, 7), hemisphere="both", center_lon=180, fal
     devpvc = ax12.contourf(grid.lon2, grid.lat2, roll(devpv), levels=symmetric_levels(devpv, 10), cmap="RdBu")
     devpvb = fig.colorbar(devpvc, ax=ax12)
     pv_levels = np.linspace(np.min(pv), np.max(pv), 10 if hemisphere == "both" else 14)[1:-1]
-    ax12.contour(grid.lon2, grid.lat2, roll(pv), colors="k", linestyles="-", levels=pv_levels)
+    if pv_levels[0] != pv_levels[-1]:
+        ax12.contour(grid.lon2, grid.lat2, roll(pv), colors="k", linestyles="-", levels=pv_levels)
     configure_lon_x(ax12)
     configure_lat_y(ax12, hemisphere)
     ax12.set_title("deviation from equiv. lat. PV [$10^{-4} \\mathrm{s}^{-1}$] and PV", loc="left")
@@ -254,7 +255,8 @@ def wave_activity(state, figsize=(11, 7), hemisphere="both", center_lon=180, fal
     # Panel: FALWA
     wac = ax22.contourf(grid.lon2, grid.lat2, roll(state.falwa), cmap=falwa_cmap)
     fig.colorbar(wac, ax=ax22)
-    ax22.contour(grid.lon2, grid.lat2, roll(pv), linestyles="-", colors="k", levels=pv_levels)
+    if pv_levels[0] != pv_levels[-1]:
+        ax22.contour(grid.lon2, grid.lat2, roll(pv), linestyles="-", colors="k", levels=pv_levels)
     configure_lon_x(ax22)
     configure_lat_y(ax22, hemisphere)
     ax22.set_title("FALWA [$\\mathrm{m} \\mathrm{s}^{-1}$] and PV", loc="left")
@@ -299,6 +301,8 @@ def rwp_diagnostics(state, figsize=(8, 10.5), hemisphere="both", center_lon=180,
     ffalwa = diagnostics.filter_by_wavenumber(state.falwa, 2*dwn)
     if rwp_max is None:
         rwp_max = max(np.max(env), np.max(ffalwa))
+    if rwp_max == 0.:
+        rwp_max = 1.
     rwp_levels = np.linspace(0, rwp_max, 6)
     # RWP envelope and streamfunction
     ax2.set_title("RWP envelope [$\\mathrm{m} \\mathrm{s}^{-1}$] and streamfunction", loc="left")
@@ -314,7 +318,8 @@ def rwp_diagnostics(state, figsize=(8, 10.5), hemisphere="both", center_lon=180,
     fig.colorbar(ctf, ax=ax3)
     pv = state.pv
     pv_levels = np.linspace(np.min(pv), np.max(pv), 10 if hemisphere == "both" else 14)[1:-1]
-    ax3.contour(grid.lon2, grid.lat2, roll(pv), colors="k", linestyles="-", levels=pv_levels)
+    if pv_levels[0] != pv_levels[-1]:
+        ax3.contour(grid.lon2, grid.lat2, roll(pv), colors="k", linestyles="-", levels=pv_levels)
     # Common styling
     for ax in (ax1, ax2, ax3):
         configure_lon_x(ax)
-- 
2.43.0


From 50345d3a4a1cb4063f5ddb6f29529f52e0d9088b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:41 +0000
Subject: [PATCH 25/37] fix: window filters truncated the result for integer
 fields

---
 src/barotropic/grid.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index f2dc1f8..9beb1a9 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -751,13 +751,15 @@ class Grid:
         """
         if width is not None:
             window = self.get_filter_window(window, width)
+        # Filtered values of integer fields are not integers
+        output = np.result_type(field, np.float32)
         # Use symmetrical boundary condition
         if field.ndim == 1:
             assert field.size == self.nlat
-            return scipy.ndimage.convolve(field, window, mode="reflect")
+            return scipy.ndimage.convolve(field, window, output=output, mode="reflect")
         elif field.ndim == 2:
             assert field.shape[0] == self.nlat
-            return scipy.ndimage.convolve(field, window[:,None], mode="reflect")
+            return scipy.ndimage.convolve(field, window[:,None], output=output, mode="reflect")
         else:
             raise ValueError("input field must be 1- or 2-dimensional")
 
@@ -779,13 +781,15 @@ class Grid:
         """
         if width is not None:
             window = self.get_filter_window(window, width)
+        # Filtered values of integer fields are not integers
+        output = np.result_type(field, np.float32)
         # Use periodic boundary condition (only makes sense if 
         if field.ndim == 1:
             assert field.size == self.nlon
-            return scipy.ndimage.convolve(field, window, mode="wrap")
+            return scipy.ndimage.convolve(field, window, output=output, mode="wrap")
         elif field.ndim == 2:
             assert field.shape[1] == self.nlon
-            return scipy.ndimage.convolve(field, window[None,:], mode="wrap")
+            return scipy.ndimage.convolve(field, window[None,:], output=output, mode="wrap")
         else:
             raise ValueError("input field must be 1- or 2-dimensional")
 
-- 
2.43.0


From 8f66fd338d59be0dd7fae2378e15dfa280b6f1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:30 +0000
Subject: [PATCH 26/37] fix: State.add_wind with a (u,v)-tuple replaced the
 wind instead of adding to it

---
 src/barotropic/state.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/barotropic/state.py b/src/barotropic/state.py
index 722acb8..aa5b28c 100644
--- a/src/barotropic/state.py
+++ b/src/barotropic/state.py
@@ -113,6 +113,8 @@ class State:
             u, v = other
             assert self.grid.shape == u.shape
             assert self.grid.shape == v.shape
+            u = self.u + u
+            v = self.v + v
         return State.from_wind(self.grid, self.time, u, v)
 
     def add_vorticity(self, other):
-- 
2.43.0


From 5777d9526076532de7278ba11141e4941bbc2a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:53 +0000
Subject: [PATCH 27/37] fix: as_dataset failed if concat_dim is also the name
 of a method

---
 src/barotropic/io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index ef9a0b6..5a7fb74 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -87,9 +87,9 @@ def as_dataset(states, fields=("u", "v"), concat_dim="time"):
         coords["time"].attrs["units"] = "s"
     # Attach non-time index coordinate if specified
     if concat_dim != "time":
-        try:
-            values = getattr(states, concat_dim)
-        except AttributeError:
+        values = getattr(states, concat_dim, None)
+        # Methods (e.g. concat_dim="run" or "index") cannot label the states
+        if values is None or callable(values):
             values = np.arange(len(states))
         coords[concat_dim] = values
     # Convert single-field and list-like field input
-- 
2.43.0


From 3d25a527c0e736fb052ad04794eb098b5bd0b678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:37 +0000
Subject: [PATCH 28/37] fix: from_dataset refused single precision coordinates
 of many resolutions

---
 src/barotropic/io.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index 5a7fb74..0eff152 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -267,9 +267,10 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
     assert np.isclose(lon[0], 0., atol=1e-3), "lon coordinate must start at 0°"
     dlons = np.diff(lon.values)
     dlon = dlons[0]
-    assert np.isclose(dlon, dlons).all(), "lon spacing is not regular"
+    # Tolerances cover the rounding of single precision coordinates
+    assert np.isclose(dlon, dlons, atol=1e-4).all(), "lon spacing is not regular"
     assert dlon > 0, "lon coordinate must be increasing (W to E)"
-    assert np.isclose(lon[-1] - lon[0], 360. - dlon), "lon coordinate irregular at periodic boundary"
+    assert np.isclose(lon[-1] - lon[0], 360. - dlon, atol=1e-3), "lon coordinate irregular at periodic boundary"
 
     # Verify latitude coordinate
     if var_map["lat"] is None:
@@ -281,13 +282,13 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
     assert lat.size - 1 == lon.size // 2, f"grid of shape [{lat.size}, {lon.size}] is not regular"
     dlats = np.diff(lat.values)
     dlat = dlats[0]
-    assert np.isclose(dlat, dlats).all(), "lat spacing is not regular"
+    assert np.isclose(dlat, dlats, atol=1e-4).all(), "lat spacing is not regular"
     assert dlat < 0, "lat coordinate must be decreasing (N to S)"
-    assert np.isclose(dlat, -dlon), "grid is not regular: lat spacing {dlat}, lon spacing {dlon}"
+    assert np.isclose(dlat, -dlon, atol=1e-4), "grid is not regular: lat spacing {dlat}, lon spacing {dlon}"
 
     # Instanciate Grid that matches dataset coordinates
     grid_kwargs = {} if grid_kwargs is None else grid_kwargs
-    grid = Grid(resolution=dlon, **grid_kwargs)
+    grid = Grid(resolution=360./lon.size, **grid_kwargs)
 
     # Consider multiple options to construct states:
     # States from horizontal wind components
-- 
2.43.0


From 346738b681793acb6a4bc97cabcdb72fca19f9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:28 +0000
Subject: [PATCH 29/37] fix: Grid.quad_meridional wrapped around for small and
 unsigned integer fields and failed for boolean fields (sptrapz)

---
 src/barotropic/grid.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 9beb1a9..e740966 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -8,6 +8,12 @@ from . import formatting
 from .constants import EARTH_RADIUS, EARTH_OMEGA, MERIDIONAL
 
 
+def _inexact(field):
+    """Return integer and boolean fields as float, such that they can be subtracted safely"""
+    field = np.asarray(field)
+    return field.astype(float) if field.dtype.kind in "bui" else field
+
+
 class Grid:
     """Regular lon-lat grid and operations for a spherical planet.
 
@@ -534,12 +540,15 @@ class Grid:
             return area / self.rsphere / self.dlam
         # Method: trapezoidal rule for the sphere
         elif method == "sptrapz":
+            # Differences of small or unsigned integers wrap around
+            y = _inexact(y)
             # Take only as much of phi as needed for the given data (input might
             # only be a sector of the full globe)
             x = self.phi2[:,:y.shape[1]]
             # If no z-values are given, integrate everywhere
             if z is None:
                 z = np.ones_like(y)
+            z = _inexact(z)
             # Construct slicing tuple based on latitude axis (-2)
             js = slice(None,   -1), slice(None, None)
             je = slice(   1, None), slice(None, None)
-- 
2.43.0


From cb8bd3e771f057eac50e7fab062726e6adc1b32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:28 +0000
Subject: [PATCH 30/37] fix: Grid.derivative_meridional wrapped around or
 failed for small integer, unsigned integer and boolean fields

---
 src/barotropic/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index e740966..3af782a 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -327,7 +327,8 @@ class Grid:
         the edges). Stencil coefficients were obtained from
         http://web.media.mit.edu/~crtaylor/calculator.html.
         """
-        f = np.asarray(f)
+        # Stencils of small or unsigned integers wrap around
+        f = _inexact(f)
         assert f.ndim <= 2
         # Output has same shape as input
         out = np.zeros_like(f)
-- 
2.43.0


From 1f1e673e2fb95409e006cca10b5d72e2af547d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:28 +0000
Subject: [PATCH 31/37] fix: vorticity and divergence were wrong for winds
 given as unsigned integers

---
 src/barotropic/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 3af782a..c9ec948 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -287,7 +287,8 @@ class Grid:
 
     def vorticity_divergence_spectral(self, u, v):
         """:py:meth:`vorticity_divergence` with spectral output fields."""
-        return self._spharm.getvrtdivspec(u, v, self._ntrunc)
+        # spharm changes signs of the input, which must not wrap around
+        return self._spharm.getvrtdivspec(_inexact(u), _inexact(v), self._ntrunc)
 
     # Derivatives and PDE solvers
 
-- 
2.43.0


From 8a8b26385655117be30c187150236aed1149d1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:28 +0000
Subject: [PATCH 32/37] fix: symmetric_levels wrapped around for small and
 unsigned integer fields

---
 src/barotropic/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/plot.py b/src/barotropic/plot.py
index 6e238cd..437cf29 100644
--- a/src/barotropic/plot.py
+++ b/src/barotropic/plot.py
@@ -94,7 +94,7 @@ def symmetric_levels(x, n=10, ext=None):
         Array of linearly spaced contour values.
     """
     if ext is None:
-        ext = max(abs(np.min(x)), abs(np.max(x)))
+        ext = max(abs(float(np.min(x))), abs(float(np.max(x))))
     if ext == 0.:
         return np.array([-1., 1.])
     return np.linspace(-ext, ext, n)
-- 
2.43.0


From 8aad78b1ee1d09fd053741aa09862f2d695d598a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 33/37] fix: Grid.zonalize wrapped around for small and
 unsigned integer fields and failed for boolean fields

---
 src/barotropic/grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index c9ec948..4bb2c58 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -645,6 +645,8 @@ class Grid:
 
         Implements the zonalization procedure of Nakamura and Zhu (2010).
         """
+        # Range and differences of small or unsigned integers wrap around
+        field = _inexact(field)
         # Select contours for area computations
         q_min = np.min(field)
         q_max = np.max(field)
-- 
2.43.0


From 2ef1dbd4cc66cd0247f9fe8b46711ee1a8fa781a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 34/37] fix: meridional interpolation of integer profiles
 truncated the pole values to integers

---
 src/barotropic/grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 4bb2c58..49799ba 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -704,6 +704,8 @@ class Grid:
 
         See also: :py:meth:`Grid.interpolate_meridional`.
         """
+        # Padding an integer array would truncate the pole values
+        field = _inexact(field)
         assert 1 <= field.ndim <= 2
         assert len(pole_values) == 2
         # The pole values take precedence over values on the poles in the
-- 
2.43.0


From c59e7c042981d7a940d76289bb8e0c932930b5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 35/37] fix: falwa wrapped around for small and unsigned
 integer PV with integer contour levels

---
 src/barotropic/diagnostics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/barotropic/diagnostics.py b/src/barotropic/diagnostics.py
index cfc1ad6..ea22bcf 100644
--- a/src/barotropic/diagnostics.py
+++ b/src/barotropic/diagnostics.py
@@ -1,6 +1,7 @@
 import numpy as np
 import scipy.signal
 from .constants import ZONAL as _ZONAL, MERIDIONAL as _MERIDIONAL
+from .grid import _inexact
 # To reduce non-optional dependencies, some required packages are imported in
 # some of these functions on demand.
 
@@ -72,6 +73,8 @@ def falwa(pv_or_state, grid=None, levels=None, interpolate=True, quad="sptrapz")
     **interpolate** is set to `False`.
     """
     grid, pv = _get_grid_vars(["pv"], grid, pv_or_state)
+    # Deviations of small or unsigned integers from a contour wrap around
+    pv = _inexact(pv)
     # Compute zonalized background state of PV
     qq, yy = grid.zonalize(pv, levels=levels, interpolate=False, quad=quad)
     # Interpolate between gridpoints in case of the the boxcounting quadrature
-- 
2.43.0


From 7b2582d6e3e4315ad180d3937dca6e5364678b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 36/37] fix: wavelet scales cover the same wavenumbers on every
 grid

The scales were 3 to 192 gridpoints whatever the resolution, so that on grids
finer than 2 degrees the wavenumbers of planetary waves were wrong (wave 2 on a
0.5 degree grid was found as 3.75), as were those of short waves on coarse grids
(wave 10 on a 15 degree grid was found as 0.15).
---
 src/barotropic/diagnostics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/barotropic/diagnostics.py b/src/barotropic/diagnostics.py
index ea22bcf..1caba5c 100644
--- a/src/barotropic/diagnostics.py
+++ b/src/barotropic/diagnostics.py
@@ -151,8 +151,9 @@ def dominant_wavenumber_wavelet(field, grid, smooth=("hann", 40, 10)):
     x = np.hstack([x, x, x])
     # Use the complex Morlet wavelet
     morlet = pywt.ContinuousWavelet("cmor1.0-1.0")
-    # ... TODO: what's going on here?
-    scales = 3 * 2**np.linspace(0, 6, 120)
+    # Scales are relative to the grid spacing, cover the wavenumbers between 48
+    # and 0.75 on every grid
+    scales = grid.shape[_ZONAL] / 48. * 2**np.linspace(0, 6, 120)
     # Apply the continuous wavelet transform
     coef, freqs = pywt.cwt(x, scales=scales, wavelet=morlet, axis=_ZONAL)
     # Extract the middle domain, throw away the periodic padding
-- 
2.43.0


From 7d090789ca78c8372aa9527bb27dbdfa65586a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:09 +0000
Subject: [PATCH 37/37] fix: include the bounds of a region up to rounding
 errors of coordinates

---
 src/barotropic/grid.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 49799ba..21464f1 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -858,11 +858,12 @@ class GridRegionIndexer:
         if lo is None and hi is None:
             return indices
         elif lo is None:
-            return indices[self._grid.lat <= hi]
+            return indices[self._at_most(self._grid.lat, hi)]
         elif hi is None:
-            return indices[lo <= self._grid.lat]
+            return indices[self._at_least(self._grid.lat, lo)]
         else:
-            return indices[(min(lo, hi) <= self._grid.lat) & (self._grid.lat <= max(lo, hi))]
+            return indices[self._at_least(self._grid.lat, min(lo, hi))
+                           & self._at_most(self._grid.lat, max(lo, hi))]
 
     def _get_lon_indices(self, slc):
         # Single-value selection still returns full array but value is checked
@@ -888,14 +889,26 @@ class GridRegionIndexer:
         if lo is None and hi is None:
             return indices
         elif lo is None:
-            return indices[self._grid.lon <= hi]
+            return indices[self._at_most(self._grid.lon, hi)]
         elif hi is None:
-            return indices[lo <= self._grid.lon]
+            return indices[self._at_least(self._grid.lon, lo)]
         elif hi < lo:
-            lo_mask = lo <= self._grid.lon
-            return np.roll(indices[(self._grid.lon <= hi) | lo_mask], np.count_nonzero(lo_mask))
+            lo_mask = self._at_least(self._grid.lon, lo)
+            return np.roll(indices[self._at_most(self._grid.lon, hi) | lo_mask], np.count_nonzero(lo_mask))
         else:
-            return indices[(lo <= self._grid.lon) & (self._grid.lon <= hi)]
+            return indices[self._at_least(self._grid.lon, lo) & self._at_most(self._grid.lon, hi)]
+
+    # The bounds are inclusive: compare up to the rounding errors of the grid
+    # coordinates (e.g. the coordinate of 7.2° is slightly less than 7.2 on a
+    # grid with 2.4° resolution)
+
+    @staticmethod
+    def _at_least(coordinate, bound):
+        return coordinate >= float(bound) - 1.e-9
+
+    @staticmethod
+    def _at_most(coordinate, bound):
+        return coordinate <= float(bound) + 1.e-9
 
 
 
-- 
2.43.0

