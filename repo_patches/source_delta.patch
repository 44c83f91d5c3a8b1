From 46b247c0a17284c89201dd2c191146789aa58618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:34 +0000
Subject: [PATCH 01/42] fix: read G-EQDSK files with freeqdsk versions which
 return GEQDSKFile objects

---
 freegs/geqdsk.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/freegs/geqdsk.py b/freegs/geqdsk.py
index 8128c98..53f82c2 100755
--- a/freegs/geqdsk.py
+++ b/freegs/geqdsk.py
@@ -247,9 +247,16 @@ def read(
     data = geqdsk.read(fh, cocos=cocos)
 
     # If data contains a limiter, set the machine wall
-    if "rlim" in data:
-        if len(data["rlim"]) > 3:
-            machine.wall = Wall(data["rlim"], data["zlim"])
+    # Note: Depending on its version freeqdsk returns either a dictionary or
+    # an object which supports indexing but not the "in" operator
+    try:
+        rlim, zlim = data["rlim"], data["zlim"]
+    except (KeyError, AttributeError):
+        rlim = zlim = None
+
+    if rlim is not None:
+        if len(rlim) > 3:
+            machine.wall = Wall(rlim, zlim)
         else:
             print("Fewer than 3 points given for limiter/wall. Ignoring.")
 
-- 
2.43.0


From 11ba9a6a1cc371c3ff110e1ee4a500b688df3646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:34 +0000
Subject: [PATCH 02/42] fix: evaluate flux at limiter points without
 transposing psi

---
 freegs/equilibrium.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 6a534b4..5c3756b 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -558,8 +558,8 @@ class Equilibrium:
                 R = np.asarray(self.R[:, 0])
                 Z = np.asarray(self.Z[0, :])
 
-                # psi is transposed due to how FreeGS meshgrids R,Z
-                psi_2d = interpolate.RectBivariateSpline(x=R, y=Z, z=psi.T)
+                # psi has shape (nx, ny), as R,Z meshgrids use "ij" indexing
+                psi_2d = interpolate.RectBivariateSpline(x=R, y=Z, z=psi)
 
                 # Get psi at the limit points
                 psi_limit_points = np.zeros(len(Rlimit))
-- 
2.43.0


From dd993097aec2eb891968dabb8a1582cccf4d6ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:34 +0000
Subject: [PATCH 03/42] fix: write G-EQDSK profiles on the uniform
 axis-to-separatrix flux grid used when reading

---
 freegs/geqdsk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/geqdsk.py b/freegs/geqdsk.py
index 53f82c2..67d372b 100755
--- a/freegs/geqdsk.py
+++ b/freegs/geqdsk.py
@@ -105,7 +105,7 @@ def write(eq, fh, label=None, oxpoints=None, fileformat=geqdsk.write):
 
     data["cpasma"] = eq.plasmaCurrent()  # Plasma current [A]
 
-    psinorm = linspace(0.0, 1.0, nx, endpoint=False)  # Does not include separatrix
+    psinorm = linspace(0.0, 1.0, nx)  # From magnetic axis to separatrix
 
     data["fpol"] = eq.fpol(psinorm)
     data["pres"] = eq.pressure(psinorm)
-- 
2.43.0


From 2af5e13f23aa7259fa44b148ff1bd23e75c95a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:12 +0000
Subject: [PATCH 04/42] fix: update limiter points when the wall is read from a
 G-EQDSK file

---
 freegs/geqdsk.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/freegs/geqdsk.py b/freegs/geqdsk.py
index 67d372b..e5b3ac4 100755
--- a/freegs/geqdsk.py
+++ b/freegs/geqdsk.py
@@ -257,6 +257,11 @@ def read(
     if rlim is not None:
         if len(rlim) > 3:
             machine.wall = Wall(rlim, zlim)
+            # Plasma may be limited by the new wall
+            (
+                machine.limit_points_R,
+                machine.limit_points_Z,
+            ) = machine.generate_limit_points(500)
         else:
             print("Fewer than 3 points given for limiter/wall. Ignoring.")
 
-- 
2.43.0


From d2ceb197c510632e60b0b049b30f81dd751548b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:16 +0000
Subject: [PATCH 05/42] fix: optimiser keeps the lowest scoring member of the
 initial population

---
 freegs/optimiser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freegs/optimiser.py b/freegs/optimiser.py
index f36910c..a521bfc 100644
--- a/freegs/optimiser.py
+++ b/freegs/optimiser.py
@@ -122,14 +122,14 @@ def optimise(obj, controls, measure, maxgen=10, N=10, CR=0.3, F=1.0, monitor=Non
 
     assert N >= 4
 
-    best = (measure(obj), obj)  # Highest score, candidate solution (agent)
+    best = (measure(obj), obj)  # Lowest score, candidate solution (agent)
     population = [best]  # List of (score, agent)
 
     for i in range(N - 1):
         agent = mutate(obj, controls)
         score_agent = (measure(agent), agent)
         population.append(score_agent)
-        if score_agent[0] > best[0]:
+        if score_agent[0] < best[0]:
             best = score_agent
 
     for generation in range(maxgen):
-- 
2.43.0


From 53e5b0fdd5490dba500a9f1fe1aa640c0764ec27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:16 +0000
Subject: [PATCH 06/42] fix: optimiser can force a change to any control,
 including a single one

---
 freegs/optimiser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/optimiser.py b/freegs/optimiser.py
index a521bfc..1e23699 100644
--- a/freegs/optimiser.py
+++ b/freegs/optimiser.py
@@ -139,7 +139,7 @@ def optimise(obj, controls, measure, maxgen=10, N=10, CR=0.3, F=1.0, monitor=Non
             others = [population[index][1] for index in pickUnique(N, 3, [ai])]
 
             new_obj = copy.deepcopy(agent[1])
-            R = random.randint(0, len(controls) - 1)  # Pick a random control to modify
+            R = random.randint(0, len(controls))  # Pick a random control to modify
             for i, control in enumerate(controls):
                 if i == R or random.random() < CR:
                     control.set(
-- 
2.43.0


From bc666dc406f89e9ad7ac8a5f136daa1a30f271b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:16 +0000
Subject: [PATCH 07/42] fix: optimiser picks partners uniformly from all other
 agents

---
 freegs/optimiser.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/freegs/optimiser.py b/freegs/optimiser.py
index 1e23699..36ebc86 100644
--- a/freegs/optimiser.py
+++ b/freegs/optimiser.py
@@ -65,11 +65,12 @@ def pickUnique(N, m, e):
     inds = sorted(e)  # Sorted list of indices. Used to avoid clashes
     others = []  # The list of three agents
     for i in range(m):
-        high = N - 1 - i - len(e)
-        newind = random.randint(0, high) if high > 0 else 0
-        
+        # Number of values still available. Note: randint excludes upper bound
+        newind = random.randint(0, N - len(inds))
+
+        # Step over values which have already been used
         for ind in inds:
-            if newind == ind:
+            if newind >= ind:
                 newind += 1
         bisect.insort(inds, newind)
         others.append(newind)
-- 
2.43.0


From d34f957f0c8e69563ee2a4089ab3e8b32f817d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:44 +0000
Subject: [PATCH 08/42] fix: optimise does not swallow KeyboardInterrupt

---
 freegs/optimise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freegs/optimise.py b/freegs/optimise.py
index b321b33..6f09290 100644
--- a/freegs/optimise.py
+++ b/freegs/optimise.py
@@ -204,8 +204,8 @@ def optimise(eq, controls, measure, maxgen=10, N=10, CR=0.3, F=1.0, monitor=None
             picard.solve(eq, eq._profiles, eq._constraints)
             # Call user-supplied evaluation function
             return measure(eq)
-        except:
-            # Solve failed.
+        except Exception:
+            # Solve failed. Note: Interrupts must not be mistaken for failures
             return float(inf)
 
     # Call the generic optimiser,
-- 
2.43.0


From a2b3f7382b313be395f81221856b0d6392c0cbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:44 +0000
Subject: [PATCH 09/42] fix: coil position controls respect limits equal to
 zero

---
 freegs/optimise.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/freegs/optimise.py b/freegs/optimise.py
index 6f09290..5bda0ee 100644
--- a/freegs/optimise.py
+++ b/freegs/optimise.py
@@ -96,9 +96,9 @@ class CoilRadius:
         self.maximum = maximum
 
     def set(self, eq, R):
-        if self.minimum and (R < self.minimum):
+        if self.minimum is not None and (R < self.minimum):
             R = self.minimum
-        if self.maximum and (R > self.maximum):
+        if self.maximum is not None and (R > self.maximum):
             R = self.maximum
         eq.tokamak[self.label].R = R
 
@@ -120,9 +120,9 @@ class CoilHeight:
         self.maximum = maximum
 
     def set(self, eq, Z):
-        if self.minimum and (Z < self.minimum):
+        if self.minimum is not None and (Z < self.minimum):
             Z = self.minimum
-        if self.maximum and (Z > self.maximum):
+        if self.maximum is not None and (Z > self.maximum):
             Z = self.maximum
         eq.tokamak[self.label].Z = Z
 
-- 
2.43.0


From 6c1348f916dcdcbfb01d863d0b1657ec223a5fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:04 +0000
Subject: [PATCH 10/42] fix: moving a shaped or filament coil also moves its
 outline

---
 freegs/filament_coil.py | 2 ++
 freegs/shaped_coil.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/freegs/filament_coil.py b/freegs/filament_coil.py
index 2df7d1e..1453185 100644
--- a/freegs/filament_coil.py
+++ b/freegs/filament_coil.py
@@ -326,6 +326,7 @@ class FilamentCoil(Coil):
         # Need to shift all points
         Rshift = Rnew - self._R_centre
         self.points = [(r + Rshift, z) for r, z in self.points]
+        self.shape = [(r + Rshift, z) for r, z in self.shape]
         self._R_centre = Rnew
 
     @property
@@ -340,6 +341,7 @@ class FilamentCoil(Coil):
         # Need to shift all points
         Zshift = Znew - self._Z_centre
         self.points = [(r, z + Zshift) for r, z in self.points]
+        self.shape = [(r, z + Zshift) for r, z in self.shape]
         self._Z_centre = Znew
 
     @property
diff --git a/freegs/shaped_coil.py b/freegs/shaped_coil.py
index ba876b8..f5a56a3 100644
--- a/freegs/shaped_coil.py
+++ b/freegs/shaped_coil.py
@@ -145,6 +145,7 @@ class ShapedCoil(Coil):
         # Need to shift all points
         Rshift = Rnew - self._R_centre
         self._points = [(r + Rshift, z, w) for r, z, w in self._points]
+        self.shape = [(r + Rshift, z) for r, z in self.shape]
         self._R_centre = Rnew
 
     @property
@@ -159,6 +160,7 @@ class ShapedCoil(Coil):
         # Need to shift all points
         Zshift = Znew - self._Z_centre
         self._points = [(r, z + Zshift, w) for r, z, w in self._points]
+        self.shape = [(r, z + Zshift) for r, z in self.shape]
         self._Z_centre = Znew
 
     @property
-- 
2.43.0


From 122a294a8085db6211d8c3818666357b476b525f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:59 +0000
Subject: [PATCH 11/42] fix: populate filament coils from their outline with
 scalar filament spacing

---
 freegs/filament_coil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/filament_coil.py b/freegs/filament_coil.py
index 1453185..5015ee7 100644
--- a/freegs/filament_coil.py
+++ b/freegs/filament_coil.py
@@ -113,7 +113,7 @@ def populate_with_fils(shape, Nfils):
 
     # Now linearly interpolate to get the d that corresponds
     # to the closest nInside to Nfils
-    d_opt = np.interp([Nfils * 1.1], nInside_data, d_data)
+    d_opt = np.interp(Nfils * 1.1, nInside_data, d_data)
 
     # Now get the locations of the filaments for this d = d_opt where nInside ~ Nfils
     rfils = []
-- 
2.43.0


From 0c90ebd8883e41aaaf06278889ffb55f3fc84847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:59 +0000
Subject: [PATCH 12/42] fix: save and restore filament coils in HDF5 files

---
 freegs/filament_coil.py | 57 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 55 insertions(+), 2 deletions(-)

diff --git a/freegs/filament_coil.py b/freegs/filament_coil.py
index 5015ee7..784eaef 100644
--- a/freegs/filament_coil.py
+++ b/freegs/filament_coil.py
@@ -182,12 +182,14 @@ class FilamentCoil(Coil):
     dtype = np.dtype(
         [
             (str("RZlen"), int),  # Length of R and Z arrays
-            (str("R"), "500f8"),  # Up to 100 points
+            (str("R"), "500f8"),  # Up to 500 filaments
             (str("Z"), "500f8"),
+            (str("shapelen"), int),  # Number of points in the outline
+            (str("shapeR"), "10f8"),  # Note: Up to 10 points
+            (str("shapeZ"), "10f8"),
             (str("current"), np.float64),
             (str("turns"), int),
             (str("control"), bool),
-            (str("npoints"), int),
         ]
     )
 
@@ -377,3 +379,54 @@ class FilamentCoil(Coil):
         # axis.plot(rquad, zquad, 'ro')
 
         return axis
+
+    def to_numpy_array(self):
+        """
+        Helper method for writing output
+        """
+        RZlen = self.npoints
+        R = np.zeros(500)
+        Z = np.zeros(500)
+        R[:RZlen] = [r for r, z in self.points]
+        Z[:RZlen] = [z for r, z in self.points]
+
+        shapelen = len(self.shape)
+        shapeR = np.zeros(10)
+        shapeZ = np.zeros(10)
+        shapeR[:shapelen] = [r for r, z in self.shape]
+        shapeZ[:shapelen] = [z for r, z in self.shape]
+
+        return np.array(
+            (
+                RZlen,
+                R,
+                Z,
+                shapelen,
+                shapeR,
+                shapeZ,
+                self.current,
+                self.turns,
+                self.control,
+            ),
+            dtype=self.dtype,
+        )
+
+    @classmethod
+    def from_numpy_array(cls, value):
+        if value.dtype != cls.dtype:
+            raise ValueError(
+                "Can't create {this} from dtype: {got} (expected: {dtype})".format(
+                    this=type(cls), got=value.dtype, dtype=cls.dtype
+                )
+            )
+        RZlen = value["RZlen"]
+        shapelen = value["shapelen"]
+
+        return FilamentCoil(
+            Rfil=value["R"][:RZlen],
+            Zfil=value["Z"][:RZlen],
+            shape=list(zip(value["shapeR"][:shapelen], value["shapeZ"][:shapelen])),
+            current=value["current"],
+            turns=value["turns"],
+            control=value["control"],
+        )
-- 
2.43.0


From 32b484510e84c2916b184972fb3ca7b74ab24ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:26 +0000
Subject: [PATCH 13/42] fix: restore circuits whose first coil has a zero
 multiplier

---
 freegs/machine.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index 807ab4f..326e380 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -265,15 +265,16 @@ class Circuit:
             except TypeError:
                 return s  # Probably already a string
 
-        # Use the current/control values from the first coil in the circuit
-        # Should be consistent!
+        # Use the current/control values from one coil in the circuit
+        # Should be consistent! Note that some multipliers may be zero
+        ref = max(value, key=lambda item: abs(item["multiplier"]))
         return Circuit(
             [
                 (toString(label), Coil(*coil), multiplier)
                 for label, coil, multiplier in value
             ],
-            current=value[0][1]["current"] / value[0]["multiplier"],
-            control=value[0][1]["control"],
+            current=ref["coil"]["current"] / ref["multiplier"],
+            control=ref["coil"]["control"],
         )
 
     def plot(self, axis=None, show=False):
-- 
2.43.0


From c291923c162ed4c33facb9ab4b92bd3db87027ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:07 +0000
Subject: [PATCH 14/42] fix: an HDF5 save which fails part way can't be read
 back as a valid equilibrium

---
 freegs/dump.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/freegs/dump.py b/freegs/dump.py
index 3822962..9e8c00d 100644
--- a/freegs/dump.py
+++ b/freegs/dump.py
@@ -113,11 +113,18 @@ class OutputFile(object):
         Write ``equilbrium`` to file
         """
 
-        self.handle["coil_dtype"] = Coil.dtype
-        self.handle["shapedcoil_dtype"] = ShapedCoil.dtype
-        self.handle["filamentcoil_dtype"] = FilamentCoil.dtype
-        self.handle["circuit_dtype"] = Circuit.dtype
-        self.handle["solenoid_dtype"] = Solenoid.dtype
+        if self.EQUILIBRIUM_GROUP_NAME in self.handle:
+            raise ValueError("File already contains an equilibrium")
+
+        for name, coil_type in [
+            ("coil_dtype", Coil),
+            ("shapedcoil_dtype", ShapedCoil),
+            ("filamentcoil_dtype", FilamentCoil),
+            ("circuit_dtype", Circuit),
+            ("solenoid_dtype", Solenoid),
+        ]:
+            if name not in self.handle:
+                self.handle[name] = coil_type.dtype
 
         type_to_dtype = {
             Coil.dtype: self.handle["coil_dtype"],
@@ -127,7 +134,13 @@ class OutputFile(object):
             Solenoid.dtype: self.handle["solenoid_dtype"],
         }
 
-        equilibrium_group = self.handle.require_group(self.EQUILIBRIUM_GROUP_NAME)
+        # Write into a temporary group, which is only given its final name when
+        # complete. If writing fails then the file can't be mistaken for a
+        # valid equilibrium.
+        temporary_name = self.EQUILIBRIUM_GROUP_NAME + "_incomplete"
+        if temporary_name in self.handle:
+            del self.handle[temporary_name]
+        equilibrium_group = self.handle.create_group(temporary_name)
 
         equilibrium_group.create_dataset("Rmin", data=equilibrium.Rmin)
         equilibrium_group.create_dataset("Rmax", data=equilibrium.Rmax)
@@ -181,6 +194,8 @@ class OutputFile(object):
             # type to restore it to later
             coils_group[label].attrs["freegs type"] = coil.__class__.__name__
 
+        self.handle.move(temporary_name, self.EQUILIBRIUM_GROUP_NAME)
+
     def read_equilibrium(self) -> Equilibrium:
         """
         Read an equilibrium from the file
-- 
2.43.0


From 49a35f795fdb8d6c2bedca1fb4dfe65300cc6dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:07 +0000
Subject: [PATCH 15/42] fix: restore coil current if the force calculation
 fails

---
 freegs/coil.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/freegs/coil.py b/freegs/coil.py
index 963dcb1..5d1a424 100644
--- a/freegs/coil.py
+++ b/freegs/coil.py
@@ -179,10 +179,13 @@ class Coil:
 
         # Calculate field at this coil due to all other coils
         # and plasma. Need to zero this coil's current
-        self.current = 0.0
-        Br = equilibrium.Br(self.R, self.Z)
-        Bz = equilibrium.Bz(self.R, self.Z)
-        self.current = current
+        try:
+            self.current = 0.0
+            Br = equilibrium.Br(self.R, self.Z)
+            Bz = equilibrium.Bz(self.R, self.Z)
+        finally:
+            # Restore, even if the field calculation failed
+            self.current = current
 
         # Assume circular cross-section for hoop (self) force
         minor_radius = np.sqrt(self.area / np.pi)
-- 
2.43.0


From 1327827997407beb7d69fee28544c4e20d457794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:09 +0000
Subject: [PATCH 16/42] fix: forces on coils in a circuit do not include the
 coil's own field

---
 freegs/machine.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index 326e380..445a886 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -158,10 +158,13 @@ class Circuit:
     def Br(self, R, Z):
         """
         Calculate radial magnetic field Br at (R,Z)
+
+        Note: The currents in the coils are kept up to date when the circuit
+        current is set. They are not set here, because Coil.getForces() switches
+        off one coil at a time.
         """
         result = 0.0
         for label, coil, multiplier in self.coils:
-            coil.current = self.current * multiplier
             result += coil.Br(R, Z)
         return result
 
@@ -171,7 +174,6 @@ class Circuit:
         """
         result = 0.0
         for label, coil, multiplier in self.coils:
-            coil.current = self.current * multiplier
             result += coil.Bz(R, Z)
         return result
 
-- 
2.43.0


From b9173a4846baf1e903649e5040c66d5675d5d962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:56 +0000
Subject: [PATCH 17/42] fix: a failed linear solve leaves the equilibrium
 unchanged

---
 freegs/equilibrium.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 5c3756b..c9e7ec1 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -470,7 +470,6 @@ class Equilibrium:
             given then X-point locations are used.
         """
 
-        self._profiles = profiles
         self._updateBoundaryPsi()
 
         if Jtor is None:
@@ -482,20 +481,24 @@ class Equilibrium:
         # Set plasma boundary
         # Note that the Equilibrium is passed to the boundary function
         # since the boundary may need to run the G-S solver (von Hagenow's method)
-        self._applyBoundary(self, Jtor, self.plasma_psi)
+        # This is done on a copy, so that the equilibrium is not left partly
+        # updated if the boundary or solver fails
+        plasma_psi = self.plasma_psi.copy()
+        self._applyBoundary(self, Jtor, plasma_psi)
 
         # Right hand side of G-S equation
         rhs = -mu0 * self.R * Jtor
 
         # Copy boundary conditions
-        rhs[0, :] = self.plasma_psi[0, :]
-        rhs[:, 0] = self.plasma_psi[:, 0]
-        rhs[-1, :] = self.plasma_psi[-1, :]
-        rhs[:, -1] = self.plasma_psi[:, -1]
+        rhs[0, :] = plasma_psi[0, :]
+        rhs[:, 0] = plasma_psi[:, 0]
+        rhs[-1, :] = plasma_psi[-1, :]
+        rhs[:, -1] = plasma_psi[:, -1]
 
         # Call elliptic solver
-        plasma_psi = self._solver(self.plasma_psi, rhs)
+        plasma_psi = self._solver(plasma_psi, rhs)
 
+        self._profiles = profiles
         self._updatePlasmaPsi(plasma_psi)
 
         # Update plasma current
-- 
2.43.0


From b851212112c04968bc88ff7ed9cd5d2732fcc1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:23 +0000
Subject: [PATCH 18/42] fix: Rogowski sensors measure the current in all turns
 of a coil

---
 freegs/machine.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index 445a886..ef38872 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -216,7 +216,13 @@ class Circuit:
         return forces
 
     def inShape(self, polygon):
-        return sum(coil.inShape(polygon)*multiplier for label, coil, multiplier in self.coils)
+        """
+        Number of turns inside polygon, weighted by the coil multipliers
+        """
+        return sum(
+            coil.inShape(polygon) * getattr(coil, "turns", 1) * multiplier
+            for label, coil, multiplier in self.coils
+        )
 
     def __repr__(self):
         result = "Circuit(["
@@ -541,7 +547,10 @@ class RogowskiSensor(Sensor):
             # coil current
             coil_current = 0
             for label, coil in tokamak.coils:
-                coil_current += coil.inShape(self.polygon) * coil.current
+                # The total current carried by a coil is current * turns
+                coil_current += (
+                    coil.inShape(self.polygon) * getattr(coil, "turns", 1) * coil.current
+                )
 
             # plasma current
             plasma_current = 0
-- 
2.43.0


From 500a6172eaa5c248146a54de0b311ff9d47e2dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:23 +0000
Subject: [PATCH 19/42] fix: Rogowski sensors can be used in machines with a
 solenoid

---
 freegs/machine.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/freegs/machine.py b/freegs/machine.py
index ef38872..abc73dd 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -431,6 +431,16 @@ class Solenoid:
         """
         return {}
 
+    def inShape(self, polygon):
+        """
+        Number of turns inside polygon
+        """
+        return sum(
+            1
+            for Zs in np.linspace(self.Zsmin, self.Zsmax, self.Ns)
+            if polygon.contains(Point(self.Rs, Zs))
+        )
+
     def __repr__(self):
         return "Solenoid(Rs={0}, Zsmin={1}, Zsmax={2}, current={3}, Ns={4}, control={5})".format(
             self.Rs, self.Zsmin, self.Zsmax, self.current, self.Ns, self.control
-- 
2.43.0


From f420a0676ae950ab65a640e0dd95abf09c48ff43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:23 +0000
Subject: [PATCH 20/42] fix: measurements can be printed when a sensor is
 switched off

---
 freegs/machine.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index abc73dd..f401d7e 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -515,10 +515,7 @@ class Sensor:
         self.status = status
         self.name = name
         self.weight = weight
-
-        if self.status:
-            self.measurement = measurement
-
+        self.measurement = measurement
 
     def __repr__(self):
         return "R={R}, Z={Z}".format(R=self.R, Z=self.Z)
-- 
2.43.0


From 52dfc7639e460fcc6b378c689d67beb4ad723a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:42 +0000
Subject: [PATCH 21/42] fix: MirroredCoil places the lower coil at -Z, and
 keeps its current and control settings

---
 freegs/machine.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index f401d7e..62a5658 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -316,10 +316,12 @@ def MirroredCoil(
             ),
             (
                 "L",
-                Coil(R, Z, current=current, turns=turns, control=control, area=area),
+                Coil(R, -Z, current=current, turns=turns, control=control, area=area),
                 1.0 if symmetric else -1.0,
             ),
-        ]
+        ],
+        current=current,
+        control=control,
     )
 
 
-- 
2.43.0


From 0f210584cfe64904de72005db2ff81b04e294691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:42 +0000
Subject: [PATCH 22/42] fix: moving a MultiCoil does not modify the lists it
 was created from

---
 freegs/multi_coil.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/freegs/multi_coil.py b/freegs/multi_coil.py
index 6614ac6..0f4485c 100644
--- a/freegs/multi_coil.py
+++ b/freegs/multi_coil.py
@@ -126,8 +126,9 @@ class MultiCoil(Coil):
         # Store locations as an internal list
         if hasattr(R, "__len__"):
             assert len(R) == len(Z)
-            self.Rfil = R
-            self.Zfil = Z
+            # Copy, so that moving this coil doesn't modify the inputs
+            self.Rfil = list(R)
+            self.Zfil = list(Z)
             self.turns = len(R)
         else:
             # Assume a single R, Z. Turn into a list
-- 
2.43.0


From 914de3ab30d6e884c16b584f8bddc1990be40d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:59 +0000
Subject: [PATCH 23/42] fix: MultiCoil at a single point uses the number of
 turns

---
 freegs/multi_coil.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/freegs/multi_coil.py b/freegs/multi_coil.py
index 0f4485c..8d88f9d 100644
--- a/freegs/multi_coil.py
+++ b/freegs/multi_coil.py
@@ -158,7 +158,7 @@ class MultiCoil(Coil):
         if self.mirror:
             for R_fil, Z_fil in zip(self.Rfil, self.Zfil):
                 result += Greens(R_fil, -Z_fil, R, Z) * self.polarity[1]
-        return result
+        return result * self.turns / len(self.Rfil)
 
     def controlBr(self, R, Z):
         """
@@ -171,7 +171,7 @@ class MultiCoil(Coil):
         if self.mirror:  # Mirror coil(s) in Z, creating circuit
             for R_fil, Z_fil in zip(self.Rfil, self.Zfil):
                 result += GreensBr(R_fil, -Z_fil, R, Z) * self.polarity[1]
-        return result
+        return result * self.turns / len(self.Rfil)
 
     def controlBz(self, R, Z):
         """
@@ -184,7 +184,7 @@ class MultiCoil(Coil):
         if self.mirror:  # Mirror coil(s) in Z, creating circuit
             for R_fil, Z_fil in zip(self.Rfil, self.Zfil):
                 result += GreensBz(R_fil, -Z_fil, R, Z) * self.polarity[1]
-        return result
+        return result * self.turns / len(self.Rfil)
 
     def __repr__(self):
         return "MultiCoil(R={0}, Z={1}, current={2:.1f}, turns={3}, control={4}, mirror={5}, polarity={6})".format(
-- 
2.43.0


From d0d7878fa987212e302c4787e579a7b82b191175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:52 +0000
Subject: [PATCH 24/42] fix: read G-EQDSK files onto a different domain

---
 freegs/geqdsk.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/freegs/geqdsk.py b/freegs/geqdsk.py
index e5b3ac4..c1a723f 100755
--- a/freegs/geqdsk.py
+++ b/freegs/geqdsk.py
@@ -384,6 +384,7 @@ def read(
         # to keep the resolution as good or better than the input
         Rmin, Rmax, Zmin, Zmax = domain
         # Calculate approximate grid size needed to keep current resolution
+        newnx, newny = nx, ny
         fnewnx = (Rmax - Rmin) / dR + 1.0
         if fnewnx > nx:
             newnx = int(ceilPow2(fnewnx - 1)) + 1
@@ -406,9 +407,10 @@ def read(
             Rmax=Rmax,
             Zmin=Zmin,
             Zmax=Zmax,
-            nx=nx,
-            ny=ny,
+            nx=newnx,
+            ny=newny,
             check_limited=True,
+            psi=psi_func(linspace(Rmin, Rmax, newnx), linspace(Zmin, Zmax, newny)),
         )
 
         # Interpolate Jtor and psi onto new grid
-- 
2.43.0


From 0ac9052e2a7fb7b37d4b797989edde0478c0b4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:16 +0000
Subject: [PATCH 25/42] fix: coil currents are restored if fitting them to a
 target flux fails

---
 freegs/control.py | 66 +++++++++++++++++++++++++++++++----------------
 1 file changed, 44 insertions(+), 22 deletions(-)

diff --git a/freegs/control.py b/freegs/control.py
index e3e5dcd..630a970 100644
--- a/freegs/control.py
+++ b/freegs/control.py
@@ -241,9 +241,14 @@ class ConstrainPsi2D(object):
         tokamak = eq.getMachine()
         start_currents = tokamak.controlCurrents()
 
-        end_currents, _ = optimize.leastsq(
-            self.psi_difference, start_currents, args=(eq,)
-        )
+        try:
+            end_currents, _ = optimize.leastsq(
+                self.psi_difference, start_currents, args=(eq,)
+            )
+        except BaseException:
+            # Don't leave trial currents in the coils
+            tokamak.setControlCurrents(start_currents)
+            raise
 
         tokamak.setControlCurrents(end_currents)
 
@@ -291,9 +296,14 @@ class ConstrainPsiNorm2D(object):
         tokamak = eq.getMachine()
         start_currents = tokamak.controlCurrents()
 
-        end_currents, _ = optimize.leastsq(
-            self.psinorm_difference, start_currents, args=(eq,)
-        )
+        try:
+            end_currents, _ = optimize.leastsq(
+                self.psinorm_difference, start_currents, args=(eq,)
+            )
+        except BaseException:
+            # Don't leave trial currents in the coils
+            tokamak.setControlCurrents(start_currents)
+            raise
 
         tokamak.setControlCurrents(end_currents)
 
@@ -360,7 +370,8 @@ class ConstrainPsi2DAdvanced(object):
         """
 
         tokamak = eq.getMachine()
-        start_currents = np.asarray(tokamak.controlCurrents())
+        initial_currents = tokamak.controlCurrents()
+        start_currents = np.asarray(initial_currents)
         ncontrols = len(start_currents)
 
         # In order for the optimisation to work, the initial guess must be within the
@@ -389,13 +400,18 @@ class ConstrainPsi2DAdvanced(object):
 
         # Least squares optimisation of difference in target v achieved normalised psi
         # applied with bounds on coil currents
-        end_currents = optimize.minimize(
-            self.psi_difference,
-            start_currents,
-            method="L-BFGS-B",
-            bounds=current_bnds,
-            args=(eq,),
-        ).x
+        try:
+            end_currents = optimize.minimize(
+                self.psi_difference,
+                start_currents,
+                method="L-BFGS-B",
+                bounds=current_bnds,
+                args=(eq,),
+            ).x
+        except BaseException:
+            # Don't leave trial currents in the coils
+            tokamak.setControlCurrents(initial_currents)
+            raise
 
         # Set the latest coil currents
         tokamak.setControlCurrents(end_currents)
@@ -455,7 +471,8 @@ class ConstrainPsiNorm2DAdvanced(object):
         """
 
         tokamak = eq.getMachine()
-        start_currents = np.asarray(tokamak.controlCurrents())
+        initial_currents = tokamak.controlCurrents()
+        start_currents = np.asarray(initial_currents)
         ncontrols = len(start_currents)
 
         # In order for the optimisation to work, the initial guess must be within the
@@ -484,13 +501,18 @@ class ConstrainPsiNorm2DAdvanced(object):
 
         # Least squares optimisation of difference in target v achieved normalised psi
         # applied with bounds on coil currents
-        end_currents = optimize.minimize(
-            self.psinorm_difference,
-            start_currents,
-            method="L-BFGS-B",
-            bounds=current_bnds,
-            args=(eq,),
-        ).x
+        try:
+            end_currents = optimize.minimize(
+                self.psinorm_difference,
+                start_currents,
+                method="L-BFGS-B",
+                bounds=current_bnds,
+                args=(eq,),
+            ).x
+        except BaseException:
+            # Don't leave trial currents in the coils
+            tokamak.setControlCurrents(initial_currents)
+            raise
 
         # Set the latest coil currents
         tokamak.setControlCurrents(end_currents)
-- 
2.43.0


From 30a8450343da78565ff6a29dcc6df8fbcb9703bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:16 +0000
Subject: [PATCH 26/42] fix: fit coil currents to a target flux without current
 limits

---
 freegs/control.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freegs/control.py b/freegs/control.py
index 630a970..4ebc3cf 100644
--- a/freegs/control.py
+++ b/freegs/control.py
@@ -376,7 +376,7 @@ class ConstrainPsi2DAdvanced(object):
 
         # In order for the optimisation to work, the initial guess must be within the
         # bounds supplied. Hence, check start_currents and adjust accordingly to be within bounds
-        for i in range(ncontrols):
+        for i in range(ncontrols if self.current_lims is not None else 0):
             bnd_upper = max(self.current_lims[i])
             bnd_lower = min(self.current_lims[i])
             sc = start_currents[i]
@@ -477,7 +477,7 @@ class ConstrainPsiNorm2DAdvanced(object):
 
         # In order for the optimisation to work, the initial guess must be within the
         # bounds supplied. Hence, check start_currents and adjust accordingly to be within bounds
-        for i in range(ncontrols):
+        for i in range(ncontrols if self.current_lims is not None else 0):
             bnd_upper = max(self.current_lims[i])
             bnd_lower = min(self.current_lims[i])
             sc = start_currents[i]
-- 
2.43.0


From c13ddc627e729e15c0b7deb5dc87dd3dd579b124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:26 +0000
Subject: [PATCH 27/42] fix: find the limiting wall point for negative plasma
 currents

---
 freegs/equilibrium.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index c9e7ec1..a3c1d3b 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -569,14 +569,19 @@ class Equilibrium:
                 for i in range(len(Rlimit)):
                     psi_limit_points[i] = psi_2d(Rlimit[i], Zlimit[i])[0]
 
-                # Get index of maximum psi value
-                indMax = np.argmax(psi_limit_points)
+                # Flux falls away from the magnetic axis if the plasma current
+                # is positive, and rises if it is negative
+                psi_outer = xpt[0][2] if xpt else np.mean(psi_limit_points)
+                sign = 1.0 if self.psi_axis >= psi_outer else -1.0
+
+                # Get index of maximum psi value (minimum for negative current)
+                indMax = np.argmax(sign * psi_limit_points)
 
                 # Extract R,Z of the contact point
                 self.Rlim = Rlimit[indMax]
                 self.Zlim = Zlimit[indMax]
 
-                # Obtain maximum psi
+                # Obtain psi at the contact point
                 self.psi_limit = psi_limit_points[indMax]
 
                 # Check if any xpoints are present
@@ -585,7 +590,10 @@ class Equilibrium:
                     self.psi_xpt = xpt[0][2]
 
                     # Choose between diverted or limited flux
-                    self.psi_bndry = max(self.psi_xpt, self.psi_limit)
+                    # whichever is closest to the magnetic axis
+                    self.psi_bndry = sign * max(
+                        sign * self.psi_xpt, sign * self.psi_limit
+                    )
 
                     if self.psi_bndry == self.psi_limit:
                         self.is_limited = True
-- 
2.43.0


From 629a422a659bdf2aca058cbd116fead25e3b74a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:32 +0000
Subject: [PATCH 28/42] fix: read G-EQDSK files onto a machine which already
 has coil currents

---
 freegs/geqdsk.py | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/freegs/geqdsk.py b/freegs/geqdsk.py
index c1a723f..5306dd8 100755
--- a/freegs/geqdsk.py
+++ b/freegs/geqdsk.py
@@ -352,17 +352,33 @@ def read(
     # rcentr reference location
     machine.R0 = data["rcentr"]
 
+    def plasma_flux(psi, Rmin, Rmax, Zmin, Zmax):
+        """
+        Subtract the flux from the coils, which may already have currents
+        in them, so that the total flux is the input psi
+        """
+        R, Z = np.meshgrid(
+            linspace(Rmin, Rmax, psi.shape[0]),
+            linspace(Zmin, Zmax, psi.shape[1]),
+            indexing="ij",
+        )
+        return psi - machine.calcPsiFromGreens(machine.createPsiGreens(R, Z))
+
     # Create an Equilibrium object
+    Rmin = data["rleft"]
+    Rmax = data["rleft"] + data["rdim"]
+    Zmin = data["zmid"] - 0.5 * data["zdim"]
+    Zmax = data["zmid"] + 0.5 * data["zdim"]
     eq = Equilibrium(
         tokamak=machine,
-        Rmin=data["rleft"],
-        Rmax=data["rleft"] + data["rdim"],
-        Zmin=data["zmid"] - 0.5 * data["zdim"],
-        Zmax=data["zmid"] + 0.5 * data["zdim"],
+        Rmin=Rmin,
+        Rmax=Rmax,
+        Zmin=Zmin,
+        Zmax=Zmax,
         nx=nx,
         ny=ny,  # Number of grid points
         check_limited=True,
-        psi=psi,
+        psi=plasma_flux(psi, Rmin, Rmax, Zmin, Zmax),
     )
     # Grid spacing
     dR = eq.R[1, 0] - eq.R[0, 0]
@@ -410,7 +426,13 @@ def read(
             nx=newnx,
             ny=newny,
             check_limited=True,
-            psi=psi_func(linspace(Rmin, Rmax, newnx), linspace(Zmin, Zmax, newny)),
+            psi=plasma_flux(
+                psi_func(linspace(Rmin, Rmax, newnx), linspace(Zmin, Zmax, newny)),
+                Rmin,
+                Rmax,
+                Zmin,
+                Zmax,
+            ),
         )
 
         # Interpolate Jtor and psi onto new grid
-- 
2.43.0


From 71e159bb5a9155de9c35321f43e2af10be8b2fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:46 +0000
Subject: [PATCH 29/42] fix: nonlinear solve does not converge on a plasma
 without boundary

---
 freegs/picard.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freegs/picard.py b/freegs/picard.py
index 8b40609..953ca2a 100644
--- a/freegs/picard.py
+++ b/freegs/picard.py
@@ -179,8 +179,9 @@ def solve(
         else:
             # Dummy condition to prevent boundary
             # convergence when there is no boundary
-            # ie set the change to > rtol
+            # ie set the change to > rtol and > atol
             bndry_relchange = 2.0 * rtol
+            bndry_change = np.inf
 
         # Get the new psi, including coils
         psi = eq.psi()
-- 
2.43.0


From 513416401444ab19079a3d7733b0c6f36b56f954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:04 +0000
Subject: [PATCH 30/42] fix: keep the total coil current limit when starting
 far outside it

constrain started its bounded minimisation from the unlimited solution. Starting
far outside max_total_current SLSQP can stop at its iteration limit, and the
coils were left with currents many times over the limit.
---
 freegs/control.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/freegs/control.py b/freegs/control.py
index 4ebc3cf..553c8b7 100644
--- a/freegs/control.py
+++ b/freegs/control.py
@@ -180,6 +180,15 @@ class constrain(object):
         # Use the analytical current change as the initial guess
         if self.current_change.shape[0] > 0:
             x0 = self.current_change
+
+            if self.max_total_current is not None:
+                # Start from currents which satisfy the total current limit:
+                # starting far outside it the minimisation may not reach it
+                currents = array(tokamak.controlCurrents())
+                total = np.sum(np.abs(currents + x0))
+                if total > self.max_total_current:
+                    x0 = (currents + x0) * (self.max_total_current / total) - currents
+
             sol = optimize.minimize(
                 objective, x0, method="SLSQP", bounds=current_change_bnds, constraints=cons
             )
-- 
2.43.0


From 0740014d685630830b36880b167ca06387fb949c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:19 +0000
Subject: [PATCH 31/42] fix: fit coil currents to a flux map from nearly zero
 currents

leastsq changes each current by a fraction of itself to find its effect, so a
coil starting with a tiny current (e.g. 1e-11 A left by the control system) was
never moved and the fit returned the starting currents.
---
 freegs/control.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/freegs/control.py b/freegs/control.py
index 553c8b7..e19697b 100644
--- a/freegs/control.py
+++ b/freegs/control.py
@@ -215,6 +215,17 @@ class constrain(object):
         return plotConstraints(self, axis=axis, show=show)
 
 
+def fit_start(currents):
+    """
+    Starting point for fitting coil currents by least squares.
+
+    The fit finds the response to each current by changing it by a tiny
+    fraction, or a fixed amount if it is exactly zero. Currents which are
+    nearly zero would never move, so these start from zero.
+    """
+    return [0.0 if abs(current) < 1.0 else current for current in currents]
+
+
 class ConstrainPsi2D(object):
     """
     Adjusts coil currents to minimise the square differences
@@ -252,7 +263,7 @@ class ConstrainPsi2D(object):
 
         try:
             end_currents, _ = optimize.leastsq(
-                self.psi_difference, start_currents, args=(eq,)
+                self.psi_difference, fit_start(start_currents), args=(eq,)
             )
         except BaseException:
             # Don't leave trial currents in the coils
@@ -307,7 +318,7 @@ class ConstrainPsiNorm2D(object):
 
         try:
             end_currents, _ = optimize.leastsq(
-                self.psinorm_difference, start_currents, args=(eq,)
+                self.psinorm_difference, fit_start(start_currents), args=(eq,)
             )
         except BaseException:
             # Don't leave trial currents in the coils
-- 
2.43.0


From 6df1d93fa90c94ad7c2572016305ebb89c04580b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:50 +0000
Subject: [PATCH 32/42] fix: force on a coil without current is zero, not NaN

The default coil area is proportional to the current, so the hoop force of a coil
carrying no current was 0 * log(R / 0) = NaN.
---
 freegs/coil.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/freegs/coil.py b/freegs/coil.py
index 5d1a424..72f74c5 100644
--- a/freegs/coil.py
+++ b/freegs/coil.py
@@ -177,6 +177,10 @@ class Coil:
         current = self.current  # current per turn
         total_current = current * self.turns  # Total toroidal current
 
+        if total_current == 0.0:
+            # No force. Note: The area may be zero if it depends on the current
+            return np.zeros(2)
+
         # Calculate field at this coil due to all other coils
         # and plasma. Need to zero this coil's current
         try:
-- 
2.43.0


From c1efdc8aecac47bc1ad0a3dadf8f876928ce8a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:04 +0000
Subject: [PATCH 33/42] fix: plot onto a given axis while reading a G-EQDSK
 file without show=True

---
 freegs/geqdsk.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/freegs/geqdsk.py b/freegs/geqdsk.py
index 5306dd8..694951e 100755
--- a/freegs/geqdsk.py
+++ b/freegs/geqdsk.py
@@ -234,15 +234,15 @@ def read(
 
     """
 
+    if axis is not None:
+        show = True
+
     if show:
         import matplotlib.pyplot as plt
 
     if fit_sol and domain:
         raise ValueError("Sorry, fit_sol cannot be used with the domain keyword")
 
-    if axis is not None:
-        show = True
-
     # Read the data as a Dictionary
     data = geqdsk.read(fh, cocos=cocos)
 
-- 
2.43.0


From d5982d158722dfaec3dc4f267d931a6d0c03117c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:42 +0000
Subject: [PATCH 34/42] fix: show a nonlinear solve with a pause of zero length

---
 freegs/picard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/picard.py b/freegs/picard.py
index 953ca2a..108f496 100644
--- a/freegs/picard.py
+++ b/freegs/picard.py
@@ -92,7 +92,7 @@ def solve(
         import matplotlib.pyplot as plt
         from .plotting import plotEquilibrium
 
-        if pause > 0.0 and axis is None:
+        if pause >= 0.0 and axis is None:
             # No axis specified, so create a new figure
             fig = plt.figure()
             axis = fig.add_subplot(111)
-- 
2.43.0


From 6fa27dbc66d860a99bbfb34b24ac678c53713734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:17 +0000
Subject: [PATCH 35/42] fix: f in the core has the sign of the vacuum field

---
 freegs/jtor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/freegs/jtor.py b/freegs/jtor.py
index 2e35bb8..a4da0f9 100644
--- a/freegs/jtor.py
+++ b/freegs/jtor.py
@@ -85,7 +85,8 @@ class Profile(abc.ABC):
 
             # ffprime = 0.5*d/dpsi(f^2)
             # Apply boundary condition at psinorm=1 val = fvac**2
-            return sqrt(2.0 * val + self.fvac() ** 2)
+            # The sign is that of the vacuum field
+            return np.copysign(sqrt(2.0 * val + self.fvac() ** 2), self.fvac())
 
         # Assume it's a NumPy array, or can be converted to one
         psinorm = np.array(psinorm)
@@ -105,7 +106,8 @@ class Profile(abc.ABC):
 
             # ffprime = 0.5*d/dpsi(f^2)
             # Apply boundary condition at psinorm=1 val = fvac**2
-            ovals[i] = sqrt(2.0 * val + self.fvac() ** 2)
+            # The sign is that of the vacuum field
+            ovals[i] = np.copysign(sqrt(2.0 * val + self.fvac() ** 2), self.fvac())
 
         return reshape(ovals, psinorm.shape)
 
-- 
2.43.0


From 9f517dbe78a66feee12628a98198c6a8581b663a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:17 +0000
Subject: [PATCH 36/42] fix: safety factor of a limited plasma uses its own
 boundary

---
 freegs/critical.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/freegs/critical.py b/freegs/critical.py
index 556093e..19c99ec 100644
--- a/freegs/critical.py
+++ b/freegs/critical.py
@@ -470,7 +470,9 @@ def find_safety(
         # No X-point
         raise ValueError("No X-point so no separatrix")
     else:
-        psinormal = (psi - opoint[0][2]) / (xpoint[0][2] - opoint[0][2])
+        # The boundary is at the X-point unless the plasma is limited by the wall
+        psi_bndry = eq.psi_bndry if eq.is_limited else xpoint[0][2]
+        psinormal = (psi - opoint[0][2]) / (psi_bndry - opoint[0][2])
 
     psifunc = interpolate.RectBivariateSpline(eq.R[:, 0], eq.Z[0, :], psinormal)
 
-- 
2.43.0


From 399fd71f570e784696806fe23b703e130615bf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:35 +0000
Subject: [PATCH 37/42] fix: poloidalBeta3 had a factor of the plasma volume
 too many

---
 freegs/equilibrium.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index a3c1d3b..f8cae0c 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -1158,9 +1158,8 @@ class Equilibrium:
 
         pressure_integral = romb(romb(pressure * dV))
         Ip = self.plasmaCurrent()
-        vol = self.plasmaVolume()
         r0 = self.Rgeometric()
-        return 4 * vol * pressure_integral / (mu0 * Ip * Ip * r0)
+        return 4 * pressure_integral / (mu0 * Ip * Ip * r0)
 
     def toroidalBeta(self):
         """Calculate plasma toroidal beta by integrating the thermal pressure
-- 
2.43.0


From f034f9a12a4d9dffdc4822c17c577b36fd8e815a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:35 +0000
Subject: [PATCH 38/42] fix: coarsening keeps the plasma flux on the boundary

---
 freegs/equilibrium.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index f8cae0c..0e82ee0 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -1323,7 +1323,8 @@ def coarsen(eq):
     """
     Reduce grid resolution, returning a new equilibrium
     """
-    plasma_psi = multigrid.restrict(eq.plasma_psi)
+    # Take every second point, including those on the boundary
+    plasma_psi = eq.plasma_psi[::2, ::2].copy()
     nx, ny = plasma_psi.shape
 
     result = Equilibrium(
-- 
2.43.0


From bc36e68d03e07c7e8580d375bd3a73752a38f388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:35 +0000
Subject: [PATCH 39/42] fix: coarsen and newDomain keep the boundary condition,
 order and grid

---
 freegs/equilibrium.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 0e82ee0..05abb99 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -1333,6 +1333,8 @@ def coarsen(eq):
         Rmax=eq.Rmax,
         Zmin=eq.Zmin,
         Zmax=eq.Zmax,
+        boundary=eq._applyBoundary,
+        order=eq.order,
         nx=nx,
         ny=ny,
     )
@@ -1364,11 +1366,19 @@ def newDomain(eq, Rmin=None, Rmax=None, Zmin=None, Zmax=None, nx=None, ny=None):
     if nx is None:
         nx = eq.R.shape[0]
     if ny is None:
-        ny = eq.R.shape[0]
+        ny = eq.R.shape[1]
 
     # Create a new equilibrium with the new domain
     result = Equilibrium(
-        tokamak=eq.tokamak, Rmin=Rmin, Rmax=Rmax, Zmin=Zmin, Zmax=Zmax, nx=nx, ny=ny
+        tokamak=eq.tokamak,
+        Rmin=Rmin,
+        Rmax=Rmax,
+        Zmin=Zmin,
+        Zmax=Zmax,
+        boundary=eq._applyBoundary,
+        order=eq.order,
+        nx=nx,
+        ny=ny,
     )
 
     # Calculate the current on the old grid
-- 
2.43.0


From e345078b812d10264bf50524118a974bd635957c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:46 +0000
Subject: [PATCH 40/42] fix: profiles of a refined, coarsened or moved
 equilibrium belong to it

---
 freegs/equilibrium.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 05abb99..ebf5bce 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -3,6 +3,7 @@ Defines class to represent the equilibrium
 state, including plasma and coil currents
 """
 
+import copy
 from typing import Optional
 
 from numpy import pi, meshgrid, linspace, exp, array
@@ -1278,6 +1279,18 @@ class Equilibrium:
         return val
 
 
+def _profilesFor(eq, profiles):
+    """
+    Profiles which belong to the given equilibrium, rather than to
+    the one they were created with
+    """
+    if getattr(profiles, "eq", eq) is eq:
+        return profiles
+    profiles = copy.copy(profiles)
+    profiles.eq = eq
+    return profiles
+
+
 def refine(eq, nx=None, ny=None):
     """
     Double grid resolution, returning a new equilibrium
@@ -1311,7 +1324,7 @@ def refine(eq, nx=None, ny=None):
     result._updatePlasmaPsi(plasma_psi)
 
     if hasattr(eq, "_profiles"):
-        result._profiles = eq._profiles
+        result._profiles = _profilesFor(result, eq._profiles)
 
     if hasattr(eq, "control"):
         result.control = eq.control
@@ -1342,7 +1355,7 @@ def coarsen(eq):
     result._updatePlasmaPsi(plasma_psi)
 
     if hasattr(eq, "_profiles"):
-        result._profiles = eq._profiles
+        result._profiles = _profilesFor(result, eq._profiles)
 
     if hasattr(eq, "control"):
         result.control = eq.control
@@ -1381,8 +1394,9 @@ def newDomain(eq, Rmin=None, Rmax=None, Zmin=None, Zmax=None, nx=None, ny=None):
         ny=ny,
     )
 
-    # Calculate the current on the old grid
-    profiles = eq._profiles
+    # Calculate the current on the old grid, with a copy of the profiles
+    # so that those of the old equilibrium are not changed
+    profiles = copy.copy(eq._profiles)
     Jtor = profiles.Jtor(eq.R, eq.Z, eq.psi(), eq.psi_bndry)
 
     # Interpolate Jtor onto new grid
@@ -1406,7 +1420,7 @@ def newDomain(eq, Rmin=None, Rmax=None, Zmin=None, Zmax=None, nx=None, ny=None):
     result._updatePlasmaPsi(plasma_psi)
 
     # Solve once more, calculating Jtor using new psi
-    result.solve(profiles)
+    result.solve(_profilesFor(result, profiles))
 
     return result
 
-- 
2.43.0


From 9d8cc0bffa97acee0f4608c50a6faba1f50eb535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:46 +0000
Subject: [PATCH 41/42] fix: refine, coarsen and newDomain keep the limiter
 check and plasma current

---
 freegs/equilibrium.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index ebf5bce..faa2a7e 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -1318,10 +1318,12 @@ def refine(eq, nx=None, ny=None):
         nx=nx,
         ny=ny,
     )
+    result.check_limited = eq.check_limited
 
     plasma_psi = eq.psi_func(result.R, result.Z, grid=False)
 
     result._updatePlasmaPsi(plasma_psi)
+    result._current = eq._current
 
     if hasattr(eq, "_profiles"):
         result._profiles = _profilesFor(result, eq._profiles)
@@ -1351,8 +1353,10 @@ def coarsen(eq):
         nx=nx,
         ny=ny,
     )
+    result.check_limited = eq.check_limited
 
     result._updatePlasmaPsi(plasma_psi)
+    result._current = eq._current
 
     if hasattr(eq, "_profiles"):
         result._profiles = _profilesFor(result, eq._profiles)
@@ -1393,6 +1397,7 @@ def newDomain(eq, Rmin=None, Rmax=None, Zmin=None, Zmax=None, nx=None, ny=None):
         nx=nx,
         ny=ny,
     )
+    result.check_limited = eq.check_limited
 
     # Calculate the current on the old grid, with a copy of the profiles
     # so that those of the old equilibrium are not changed
-- 
2.43.0


From f2a2c52b5cf5478ed7e01c173aed0960ae0011d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:18 +0000
Subject: [PATCH 42/42] fix: locate critical points to 1e-6 T rather than 1 mT,
 which was up to centimetres

---
 freegs/critical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/critical.py b/freegs/critical.py
index 19c99ec..3b9bb5a 100644
--- a/freegs/critical.py
+++ b/freegs/critical.py
@@ -114,7 +114,7 @@ def find_critical(R, Z, psi, discard_xpoints=True):
                     Br = -f(R1, Z1, dy=1, grid=False) / R1
                     Bz = f(R1, Z1, dx=1, grid=False) / R1
 
-                    if Br ** 2 + Bz ** 2 < 1e-6:
+                    if Br ** 2 + Bz ** 2 < 1e-12:
                         # Found a minimum. Classify as either
                         # O-point or X-point
 
-- 
2.43.0

