From 3462bfd9e9d2ab7654b2e222f40e8bd64f175694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:38 +0000
Subject: [PATCH 01/16] fix: return a StateList from run when the requested end
 is before the start

---
 src/barotropic/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/model.py b/src/barotropic/model.py
index e480e8e..e2d0a96 100644
--- a/src/barotropic/model.py
+++ b/src/barotropic/model.py
@@ -71,7 +71,7 @@ class BarotropicModel:
 
         """
         if tend < state_init.time:
-            return state_init, [state_init]
+            return state_init, StateList([state_init])
         # First integration with Euler forward step (multistep leapfrog scheme
         # requires initialization)
         state = self.euler(state_init, dt)
-- 
2.43.0


From 099ecd5a0d4478d99103b4508d21959c3c62fa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:39 +0000
Subject: [PATCH 02/16] fix: count the save interval of run from the time of
 the initial state

---
 src/barotropic/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/model.py b/src/barotropic/model.py
index e2d0a96..a134c28 100644
--- a/src/barotropic/model.py
+++ b/src/barotropic/model.py
@@ -78,7 +78,7 @@ class BarotropicModel:
         state, state_new = state_init, state
         # Save model states during the integration
         states = [state]
-        t_save = save_every
+        t_save = state_init.time + save_every if save_every > 0 else None
         # Integrate one step further than requested so Robert-Asselin filter is
         # applied to model state at the end
         while state.time < tend:
-- 
2.43.0


From ea83d1b81283fc3fdc4fdd4035ee28f638abeb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:39 +0000
Subject: [PATCH 03/16] fix: use scipy.signal.windows.hann, scipy.signal.hann
 has been removed from scipy

---
 src/barotropic/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/diagnostics.py b/src/barotropic/diagnostics.py
index 0e3e01c..f88d828 100644
--- a/src/barotropic/diagnostics.py
+++ b/src/barotropic/diagnostics.py
@@ -216,7 +216,7 @@ def filter_by_wavenumber(field, wavenumber):
             convs.append(np.zeros_like(field))
             continue
         # Obtain the normalized Hann window for the current width
-        hann = scipy.signal.hann(width)
+        hann = scipy.signal.windows.hann(width)
         hann = hann / np.sum(hann)
         # Apply window along the zonal axis
         convs.append(scipy.signal.convolve2d(field, hann[None,:], mode="same", boundary="wrap"))
-- 
2.43.0


From 70b97cb0a0adfafcba985ab837abab2219982da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:39 +0000
Subject: [PATCH 04/16] fix: Grid.vorticity_divergence called an undefined name

---
 src/barotropic/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 315f60f..229d739 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -268,7 +268,7 @@ class Grid:
         Returns:
             Tuple of gridded (vorticity, divergence) fields.
         """
-        vort, div = vorticity_divergence_spectral(u, v)
+        vort, div = self.vorticity_divergence_spectral(u, v)
         return self.to_grid(vort), self.to_grid(div)
 
     def vorticity_divergence_spectral(self, u, v):
-- 
2.43.0


From 4578801b97ff435410529be06fdf36a0c1b49325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:39 +0000
Subject: [PATCH 05/16] fix: Grid.equivalent_latitude failed for numbers

---
 src/barotropic/grid.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 229d739..1552b20 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -591,8 +591,7 @@ class Grid:
         # Calculate argument of arcsin
         sine = 1. - 0.5 * area / np.pi / self.rsphere**2
         # Make sure argument of arcsin is in [-1, 1]
-        sine[sine >=  1] =  1
-        sine[sine <= -1] = -1
+        sine = np.clip(sine, -1., 1.)
         # Equivalent latitude in degrees
         return np.rad2deg(np.arcsin(sine))
 
-- 
2.43.0


From 19d91c5d9fc24c681e5a7e1bdb350ab067ffc997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:39 +0000
Subject: [PATCH 06/16] fix: dominant_wavenumber_fourier ignored the offset of
 the wavenumber range

---
 src/barotropic/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/diagnostics.py b/src/barotropic/diagnostics.py
index f88d828..a39c66c 100644
--- a/src/barotropic/diagnostics.py
+++ b/src/barotropic/diagnostics.py
@@ -116,7 +116,7 @@ def dominant_wavenumber_fourier(field, grid, smooth=("boxcar", 10), wavenumber_r
     # Compute Fourier power spectrum and determine wavenumber with maximum
     # power in the specified wavenumber range
     power = np.abs(np.fft.rfft(field, axis=_ZONAL)) ** 2
-    k_dom = np.argmax(power[:,k_min:k_max+1], axis=_ZONAL).astype(float)
+    k_dom = (k_min + np.argmax(power[:,k_min:k_max+1], axis=_ZONAL)).astype(float)
     # Apply smoothing if desired
     return k_dom if smooth is None else grid.filter_meridional(k_dom, *smooth)
 
-- 
2.43.0


From c56cfdea5477ce01d274b4a7568266de9a448d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:39 +0000
Subject: [PATCH 07/16] fix: StateList could not be copied or pickled

---
 src/barotropic/state.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/barotropic/state.py b/src/barotropic/state.py
index 628d87c..e4b2542 100644
--- a/src/barotropic/state.py
+++ b/src/barotropic/state.py
@@ -461,7 +461,10 @@ class StateList(collections.abc.Sequence):
         # converted to a partially evaluated function that collects the result
         # from the invocation on every State in the StateList. Separate
         # attributes and methods by checking if the (unbound) method exists on
-        # the State class.
+        # the State class. Private and special names are never broadcast: they
+        # are looked up by copy and pickle before the instance is initialized.
+        if name.startswith("_"):
+            raise AttributeError(f"'StateList' object has no attribute '{name}'")
         attr = getattr(State, name, None)
         if callable(attr):
             return functools.partial(self.map, attr)
-- 
2.43.0


From 9a48be06c45565cde1ad6ee6137976563aab809e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:39 +0000
Subject: [PATCH 08/16] fix: from_dataset attached 0-dimensional arrays as
 numeric times

---
 src/barotropic/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index 9188ad8..b3ba6eb 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -341,6 +341,9 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
                 # timezone info for now
                 timestamp = (time - np.datetime64(0, "s")) / np.timedelta64(1, "s")
                 time = dt.datetime.fromtimestamp(timestamp, dt.timezone.utc).replace(tzinfo=None)
+            # Other types: turn 0-dimensional array into a regular Python object
+            elif isinstance(time, np.ndarray):
+                time = time.item()
         # Create State and add to collection
         states.append(as_state(time, field))
 
-- 
2.43.0


From 41c8dbaaa6a162e32c458291228ae48236bb486f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:08 +0000
Subject: [PATCH 09/16] fix: grids lost a row or column to rounding for some
 resolutions

---
 src/barotropic/grid.py | 6 ++++--
 src/barotropic/io.py   | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 1552b20..f58ec56 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -49,8 +49,10 @@ class Grid:
         # Setup longitude and latitude grid. Make sure longitude 0° is not
         # repeated and that both latitudes 90° and -90° exist. Latitudes start
         # at the North pole, which is the convention used by pyspharm.
-        self.nlon = int(360. / resolution)
-        self.nlat = int(180. / resolution) + 1
+        # Guard the truncation against rounding errors of the division, e.g.
+        # for a resolution of 180/169.
+        self.nlon = int(360. / resolution + 1.e-6)
+        self.nlat = int(180. / resolution + 1.e-6) + 1
         self.lon = np.linspace( 0., 360., self.nlon, endpoint=False)
         self.lat = np.linspace(90., -90., self.nlat, endpoint=True)
         self.lon2, self.lat2 = np.meshgrid(self.lon, self.lat)
diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index b3ba6eb..bd590a6 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -285,7 +285,8 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
 
     # Instanciate Grid that matches dataset coordinates
     grid_kwargs = {} if grid_kwargs is None else grid_kwargs
-    grid = Grid(resolution=dlon, **grid_kwargs)
+    # (dlon may be affected by the limited precision of the lon coordinate)
+    grid = Grid(resolution=(360. / lon.size), **grid_kwargs)
 
     # Consider multiple options to construct states:
     # States from horizontal wind components
-- 
2.43.0


From cdf0dc390d35c1b9b370d916c417d75b31f11c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:33 +0000
Subject: [PATCH 10/16] fix: summary plot drew wind vectors at unrolled
 longitudes

---
 src/barotropic/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/plot.py b/src/barotropic/plot.py
index 2957e88..0d4b076 100644
--- a/src/barotropic/plot.py
+++ b/src/barotropic/plot.py
@@ -177,7 +177,7 @@ def summary(state, figsize=(11, 7), hemisphere="both", center_lon=180, pv_cmap="
     fig.colorbar(pvc, ax=ax12)
     n_vectors = 13 if hemisphere == "both" else 21
     if not (np.linalg.norm(state.u) == 0. and np.linalg.norm(state.v) == 0.):
-        ax12.quiver(*reduce_vectors(grid.lon2, grid.lat2, state.u, state.v, n_vectors))
+        ax12.quiver(*reduce_vectors(grid.lon2, grid.lat2, roll(state.u), roll(state.v), n_vectors))
     configure_lon_x(ax12)
     configure_lat_y(ax12, hemisphere)
     ax12.set_title("PV [$10^{-4} \\mathrm{s}^{-1}$] and wind vectors", loc="left")
-- 
2.43.0


From b0b16eaf94ea64b502d2cd4bd41986a1b333c626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:44 +0000
Subject: [PATCH 11/16] fix: diffusion of higher order left the range of single
 precision

---
 src/barotropic/grid.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index f58ec56..3b47554 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -409,8 +409,11 @@ class Grid:
 
     def solve_diffusion_spectral(self, field_spectral, coeff, dt, order=1):
         """:py:meth:`solve_diffusion` with spectral in- and output fields."""
-        eigenvalues_op = self._laplacian_eigenvalues ** order
-        return field_spectral / (1. + dt * coeff * eigenvalues_op)
+        # Powers of the eigenvalues (and the matching coefficients) leave the
+        # range of single precision floats, so use double precision here
+        eigenvalues_op = self._laplacian_eigenvalues.real.astype(float) ** order
+        solution = field_spectral / (1. + dt * coeff * eigenvalues_op)
+        return solution.astype(field_spectral.dtype)
 
     # Area-weighted operators
 
-- 
2.43.0


From d728c284578c1f3dfda5b06f235887f1ce47fffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:31 +0000
Subject: [PATCH 12/16] fix: from_dataset placed data with longitudes not
 starting at 0 at wrong longitudes

---
 src/barotropic/io.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index bd590a6..e4f8c00 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -269,6 +269,12 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
     assert np.isclose(dlon, dlons).all(), "lon spacing is not regular"
     assert dlon > 0, "lon coordinate must be increasing (W to E)"
     assert np.isclose(lon[-1] - lon[0], 360. - dlon), "lon coordinate irregular at periodic boundary"
+    # Longitudes of Grid start at 0°, rotate other data (e.g. -180° to 180°)
+    shift = float(lon[0] / dlon)
+    assert np.isclose(shift, round(shift), atol=1e-3), "lon coordinate does not contain 0°"
+    if round(shift) % lon.size != 0:
+        ds = ds.roll({ lon.dims[0]: round(shift) }, roll_coords=True)
+        lon = ds.coords[var_map["lon"]]
 
     # Verify latitude coordinate
     if var_map["lat"] is None:
-- 
2.43.0


From 683f8dc35c0d82f95e66b663959c0c3be4b6c38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:56 +0000
Subject: [PATCH 13/16] fix: from_dataset attached timedelta64 values as
 numeric times

---
 src/barotropic/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index e4f8c00..e36c028 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -348,6 +348,9 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
                 # timezone info for now
                 timestamp = (time - np.datetime64(0, "s")) / np.timedelta64(1, "s")
                 time = dt.datetime.fromtimestamp(timestamp, dt.timezone.utc).replace(tzinfo=None)
+            # Time without a reference date (decoded by xarray) in seconds
+            elif isinstance(time, np.timedelta64):
+                time = float(time / np.timedelta64(1, "s"))
             # Other types: turn 0-dimensional array into a regular Python object
             elif isinstance(time, np.ndarray):
                 time = time.item()
-- 
2.43.0


From 229f528920abcf73441f5cac2b32055847e807f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:07 +0000
Subject: [PATCH 14/16] fix: from_dataset failed for records with equal or
 missing labels

Records were selected by the values of their coordinates, so that states
exported at equal times could not be imported again.
---
 src/barotropic/io.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index e36c028..500dae3 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -302,19 +302,19 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
         data = ds[var_map["u"]]
         # Two fields required to initialize: proceed with DataArray of u for
         # data, and select matching v field during construction of the State
-        def as_state(t, da):
+        def as_state(t, da, selection):
             u = da.values
-            # Select matching meridional wind field (dims_flatten assigned below)
-            v = ds[var_map["v"]].sel({ dim: da.coords[dim] for dim in dims_flatten }).values
+            # Select matching meridional wind field (dims identical to those of u)
+            v = ds[var_map["v"]].isel(selection).values
             return State.from_wind(grid, t, u, v)
     # States from relative vorticity
     elif var_map["vo"] is not None:
         data = ds[var_map["vo"]] # DataArray, no further selection necessary
-        as_state = lambda t, da: State.from_vorticity(grid, t, da.values)
+        as_state = lambda t, da, _: State.from_vorticity(grid, t, da.values)
     # States from absolute vorticity
     elif var_map["avo"] is not None:
         data = ds[var_map["avo"]] # DataArray, no further selection necessary
-        as_state = lambda t, da: State(grid, t, pv=da.values)
+        as_state = lambda t, da, _: State(grid, t, pv=da.values)
     else:
         raise ValueError(
             "no fields for state construction detected, please specify"
@@ -327,15 +327,17 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
     # Only 1-dimensional StateList output supported, so all dimensions other
     # than lon and lat are flattened
     dims_flatten = data.dims[:-2]
-    dims_values = [data.coords[dim].values for dim in dims_flatten]
+    dims_indices = [range(data.sizes[dim]) for dim in dims_flatten]
 
     states = []
     # Because itertools.product returns an empty tuple when called without any
-    # arguments (here: when dims_values is empty), this also covers the case of
+    # arguments (here: when dims_indices is empty), this also covers the case of
     # single field input with no flattened dimensions
-    for selection in itertools.product(*dims_values):
-        # Extract the current lon-lat field
-        field = data.sel(dict(zip(dims_flatten, selection)))
+    for indices in itertools.product(*dims_indices):
+        # Extract the current lon-lat field (by position, coordinate values do
+        # not have to be unique)
+        selection = dict(zip(dims_flatten, indices))
+        field = data.isel(selection)
         # Try to use time value from coordinates if possible, otherwise fall
         # back to fill value
         time = time_fill
@@ -355,7 +357,7 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
             elif isinstance(time, np.ndarray):
                 time = time.item()
         # Create State and add to collection
-        states.append(as_state(time, field))
+        states.append(as_state(time, field, selection))
 
     return StateList(states)
 
-- 
2.43.0


From 108d1b3e03d69e80e88116ce3431d78e1fcad69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:07 +0000
Subject: [PATCH 15/16] fix: grids of slowly rotating planets compared equal

The default absolute tolerance of np.isclose exceeds differences of omega
for planets with rotation rates of the order of 1e-7 per second and less.
---
 src/barotropic/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 3b47554..c2490e2 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -89,7 +89,7 @@ class Grid:
         return (
             self.shape == other.shape
             and np.isclose(self.rsphere, other.rsphere)
-            and np.isclose(self.omega, other.omega)
+            and np.isclose(self.omega, other.omega, atol=0.)
             and self._ntrunc == other._ntrunc
         )
 
-- 
2.43.0


From 595929c5b1ec3990a48a86ce1c1ed7d64dea132f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:26 +0000
Subject: [PATCH 16/16] fix: add_wind dropped the wind of the state when given
 a (u, v)-tuple

---
 src/barotropic/state.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/barotropic/state.py b/src/barotropic/state.py
index e4b2542..b43e1c4 100644
--- a/src/barotropic/state.py
+++ b/src/barotropic/state.py
@@ -113,6 +113,8 @@ class State:
             u, v = other
             assert self.grid.shape == u.shape
             assert self.grid.shape == v.shape
+            u = self.u + u
+            v = self.v + v
         return State.from_wind(self.grid, self.time, u, v)
 
     def add_vorticity(self, other):
-- 
2.43.0

