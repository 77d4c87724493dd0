From be5832668084d5dfe054756208fb844de119f78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:21 +0000
Subject: [PATCH 01/76] fix: normalize_coords returned longitudes outside
 [-180, 180) and clipped latitudes far beyond a pole

---
 cratermaker/utils/general_utils.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/cratermaker/utils/general_utils.py b/cratermaker/utils/general_utils.py
index 5eb2da0..948a83f 100644
--- a/cratermaker/utils/general_utils.py
+++ b/cratermaker/utils/general_utils.py
@@ -234,28 +234,28 @@ def normalize_coords(location: tuple[FloatLike, FloatLike]) -> tuple[float, floa
     Examples
     --------
     >>> normalize_coords((370, 95))
-    (10.0, 85.0)
+    (-170.0, 85.0)
 
     >>> normalize_coords((-185, -100))
-    (-5.0, 80.0)
+    (-5.0, -80.0)
     """
     lon, lat = location
 
+    normalized_lat = lat
+    if lat > 90 or lat < -90:
+        # Remove full turns, then fold latitudes that pass over a pole and flip the longitude to the other side
+        normalized_lat = ((lat + 180) % 360) - 180
+        if normalized_lat > 90:
+            normalized_lat = 180 - normalized_lat
+            lon = lon + 180
+        elif normalized_lat < -90:
+            normalized_lat = -180 - normalized_lat
+            lon = lon + 180
+
     # Normalize longitude to be within [-180, 180)
     normalized_lon = ((lon + 180) % 360) - 180
-
-    # Normalize latitude
-    if lat > 90:
-        normalized_lat = 180 - lat
-        normalized_lon = lon - 180  # Flip the longitude
-    elif lat < -90:
-        normalized_lat = -180 - lat
-        normalized_lon = lon - 180  # Flip the longitude
-    else:
-        normalized_lat = lat
-
-    # Ensure latitude is within the range [-90, 90] after adjustments
-    normalized_lat = np.clip(normalized_lat, -90, 90)
+    if normalized_lon >= 180:  # The modulo of a tiny negative number can round up to 360
+        normalized_lon = -180.0
 
     return float(normalized_lon), float(normalized_lat)
 
-- 
2.43.0


From d7e4f66098e70f41d03a864637383dbde7d6013a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:21 +0000
Subject: [PATCH 02/76] fix: documented structured-array locations and lists of
 two locations were rejected

---
 cratermaker/utils/general_utils.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cratermaker/utils/general_utils.py b/cratermaker/utils/general_utils.py
index 948a83f..746904d 100644
--- a/cratermaker/utils/general_utils.py
+++ b/cratermaker/utils/general_utils.py
@@ -291,9 +291,9 @@ def validate_and_normalize_location(location):
     Examples
     --------
     >>> validate_and_normalize_location((370, 95))
-    (10.0, 85.0))
+    (-170.0, 85.0)
 
-    >>> validate_and_normalize_location({"lat": 45.0, "lon": 120.0})
+    >>> validate_and_normalize_location({"lat": 45.0, "lon": -120.0})
     (-120., 45.)
 
     >>> validate_and_normalize_location(np.array([(-120.0, 45.0)], dtype=[("lon", "f8"), ("lat", "f8")]))
@@ -302,11 +302,11 @@ def validate_and_normalize_location(location):
     """
     # Check if it's already a tuple
 
-    if isinstance(location, np.ndarray) and location.dtype.names == ("lon", "lat"):
-        return normalize_coords((location[0], location[1]))
-
-    if isinstance(location, np.ndarray) and location.dtype.names == ("lat", "lon"):
-        return normalize_coords((location[1], location[0]))
+    if isinstance(location, np.ndarray | np.void) and location.dtype.names is not None:
+        if set(location.dtype.names) != {"lon", "lat"}:
+            raise ValueError("a structured location array must have the fields 'lon' and 'lat'")
+        pairs = [normalize_coords(pair) for pair in zip(np.ravel(location["lon"]), np.ravel(location["lat"]), strict=True)]
+        return pairs[0] if len(pairs) == 1 else pairs
 
     if isinstance(location, np.ndarray) and len(location.shape) == 2 and location.shape[1] == 2:
         if location.shape[0] == 1:
@@ -317,7 +317,7 @@ def validate_and_normalize_location(location):
                 validated_loc.append(validate_and_normalize_location(loc))
             return validated_loc
 
-    if isinstance(location, (tuple | list | np.ndarray)) and len(location) == 2:
+    if isinstance(location, (tuple | list | np.ndarray)) and len(location) == 2 and np.ndim(location[0]) == 0:
         return normalize_coords(location)
 
     if (
-- 
2.43.0


From 1f83080d995092aaa48fbfbde35497e2c7fb2efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:16 +0000
Subject: [PATCH 03/76] fix: projectile_vertical_velocity was ignored when
 making a crater and lost when copying one

---
 cratermaker/components/crater/__init__.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index 2fd5682..a5e1126 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -834,6 +834,17 @@ class Crater(ComponentBase):
             else:
                 make_copy = True
 
+        # Infer the third velocity quantity when the vertical velocity is one of the two that are given
+        if projectile_vertical_velocity is not None and n_velocity_inputs == 2:
+            if projectile_angle is not None:
+                if not 0 < projectile_angle <= 90:
+                    raise ValueError("projectile_angle must be in the range (0, 90] when used with projectile_vertical_velocity.")
+                projectile_velocity = projectile_vertical_velocity / math.sin(math.radians(projectile_angle))
+            else:
+                if not 0 <= projectile_vertical_velocity <= projectile_velocity:
+                    raise ValueError("projectile_vertical_velocity must be between 0 and projectile_velocity.")
+                projectile_angle = math.degrees(math.asin(projectile_vertical_velocity / projectile_velocity))
+
         size_inputs = {
             "semimajor_axis": semimajor_axis,
             "transient_diameter": transient_diameter,
@@ -926,6 +937,9 @@ class Crater(ComponentBase):
                 if field in args and args[field] is None or field not in args:
                     args[field] = old_parameters[field]
 
+            if args["projectile_velocity"] is None and args["projectile_angle"] is not None and projectile_vertical_velocity is not None:
+                args["projectile_velocity"] = projectile_vertical_velocity / math.sin(math.radians(args["projectile_angle"]))
+
         if n_size_inputs != 1:
             if check_redundant_inputs:
                 raise ValueError(f"Exactly one of {', '.join(k for k, v in size_inputs.items() if v is not None)} must be set.")
@@ -995,6 +1009,8 @@ class Crater(ComponentBase):
             ).new_projectile(
                 **projectile_args,
             )
+            if projectile_vertical_velocity is not None and args["projectile_velocity"] is None:
+                projectile.velocity = projectile_vertical_velocity / math.sin(math.radians(projectile.angle))
 
             scaling = Scaling.maker(
                 scaling,
-- 
2.43.0


From 82ce64ce7e4353162b0c16f1298c11c3fd682416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:16 +0000
Subject: [PATCH 04/76] fix: a crater's id depended on whether its time was
 given as an int or as an equal float

---
 cratermaker/components/crater/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index a5e1126..c55974b 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -867,7 +867,7 @@ class Crater(ComponentBase):
             "projectile_density": projectile_density,
             "morphology_type": "Not Set",
             "location": location,
-            "time": time,
+            "time": float(time) if time is not None else None,
         }
 
         if measured_diameter is not None:
-- 
2.43.0


From c03ff3a0ab4198a3cc28c6c69ce2eb7e1f4ad5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:16 +0000
Subject: [PATCH 05/76] fix: a name given when copying a crater was dropped,
 and copies with a new size lost their name

---
 cratermaker/components/crater/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index c55974b..6c4fd72 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -933,6 +933,7 @@ class Crater(ComponentBase):
                 n_velocity_inputs = 2
 
             # Now set the local arguments to be what's left from the old_parameters
+            name = old_parameters.pop("name", name)
             for field in old_parameters:
                 if field in args and args[field] is None or field not in args:
                     args[field] = old_parameters[field]
@@ -976,7 +977,6 @@ class Crater(ComponentBase):
 
             measured_orientation = args.pop("measured_orientation", None)
             measured_location = args.pop("measured_location", None)
-            name = args.pop("name", None)
             if crater is not None:
                 mt = crater.morphology_type
             else:
-- 
2.43.0


From 26881629135064a6dca1d4e33eeac2df414bea94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:16 +0000
Subject: [PATCH 06/76] fix: copying a crater with a new size kept its old
 semiminor axis and mixed old and new measured sizes

---
 cratermaker/components/crater/__init__.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index 6c4fd72..e6dc661 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -902,6 +902,7 @@ class Crater(ComponentBase):
             if not isinstance(crater, Crater):
                 raise TypeError("crater must be a Crater object.")
             old_parameters = {}
+            measured_sizes = ["measured_diameter", "measured_radius", "measured_semimajor_axis", "measured_semiminor_axis"]
             for field in crater.as_dict():
                 if field in locals() and locals()[field] is None and getattr(crater, field) is not None:
                     old_parameters[field] = getattr(crater, field)
@@ -912,8 +913,14 @@ class Crater(ComponentBase):
                 make_copy = True
             else:  # The user is passing a size parameter, so we cannot use any of the values from the crater object
                 make_copy = False
-                for field in size_inputs:
+                for field in [*size_inputs, "semiminor_axis", *measured_sizes]:
                     old_parameters.pop(field, None)
+            if any(field in args for field in measured_sizes):  # A measured size passed by the user replaces the old one
+                for field in measured_sizes:
+                    old_parameters.pop(field, None)
+                if ("measured_semimajor_axis" in args) != ("measured_semiminor_axis" in args):
+                    field = "measured_semiminor_axis" if "measured_semimajor_axis" in args else "measured_semimajor_axis"
+                    old_parameters[field] = getattr(crater, field)
             if projectile_mean_velocity is None:
                 # Be sure to keep only two velocitity components, with a preference for angle over vertical velocity
                 if n_velocity_inputs == 0:
-- 
2.43.0


From bac9ff7367cd71f9d250d0ebb5b5982d872d4905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:16 +0000
Subject: [PATCH 07/76] fix: the location of a copied crater was not normalized

---
 cratermaker/components/crater/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index e6dc661..c7a9d2e 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -965,7 +965,7 @@ class Crater(ComponentBase):
             pv = args.pop("projectile_velocity")
             pang = args.pop("projectile_angle")
             prho = args.pop("projectile_density")
-            location = args.pop("location")
+            location = validate_and_normalize_location(args.pop("location"))
             if "measured_diameter" in args:
                 measured_diameter = args.pop("measured_diameter")
                 measured_semimajor_axis = measured_diameter / 2.0
-- 
2.43.0


From 0dda159bb5864503d1892cea2e6f9f078c0536f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:16 +0000
Subject: [PATCH 08/76] fix: a projectile density given when copying a crater
 was ignored

---
 cratermaker/components/crater/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index c7a9d2e..84ab85b 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -965,6 +965,8 @@ class Crater(ComponentBase):
             pv = args.pop("projectile_velocity")
             pang = args.pop("projectile_angle")
             prho = args.pop("projectile_density")
+            if crater is not None and projectile_density is not None and pd is not None:
+                pm = (4.0 / 3.0) * math.pi * (pd / 2) ** 3 * prho
             location = validate_and_normalize_location(args.pop("location"))
             if "measured_diameter" in args:
                 measured_diameter = args.pop("measured_diameter")
-- 
2.43.0


From 1acf1f13d2d0f1fbe7125c375bb434cd79cee213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:16 +0000
Subject: [PATCH 09/76] fix: contradictory diameter/final_diameter or
 radius/final_radius were accepted

---
 cratermaker/components/crater/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index 84ab85b..351a2a9 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -763,6 +763,10 @@ class Crater(ComponentBase):
             return np.uint32(int(f"0x{hexid}", 16))
 
         # Convert from the old API "final_diameter/final_radius" to "diameter/radius"
+        if check_redundant_inputs and (
+            (final_diameter is not None and diameter is not None) or (final_radius is not None and radius is not None)
+        ):
+            raise ValueError("Only one of diameter or final_diameter, and of radius or final_radius, may be set.")
         if final_diameter is not None:
             diameter = final_diameter
         if final_radius is not None:
-- 
2.43.0


From af598cf112879951468e32e765b9736d7790f120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:58 +0000
Subject: [PATCH 10/76] fix: impact angles above 90 degrees from the horizontal
 were accepted

---
 cratermaker/components/projectile/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/projectile/__init__.py b/cratermaker/components/projectile/__init__.py
index e8d8f35..af2f817 100644
--- a/cratermaker/components/projectile/__init__.py
+++ b/cratermaker/components/projectile/__init__.py
@@ -404,8 +404,8 @@ class Projectile(ComponentBase):
             value = value.item()
         if not isinstance(value, FloatLike):
             raise TypeError("angle must be a numeric value")
-        if value < 0:
-            raise ValueError("angle must be a positive number")
+        if value < 0 or value > 90:
+            raise ValueError("angle must be between 0 and 90 degrees")
         self._angle = float(value)
 
     @property
-- 
2.43.0


From 2f3246f76c9fde959cf0efb1f9465493828debce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:33 +0000
Subject: [PATCH 11/76] fix: assigning a smaller measured_radius or
 measured_diameter kept the old semimajor axis

---
 cratermaker/components/crater/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index 351a2a9..acf6c40 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -235,8 +235,11 @@ class CraterVariable:
             self.measured_semimajor_axis = None
             self.measured_semiminor_axis = None
         else:
-            self.measured_semimajor_axis = value
-            self.measured_semiminor_axis = value
+            if value <= 0:
+                raise ValueError("measured_radius must be positive.")
+            # Set both axes at once, because the axis setters would swap the new value with an old axis
+            self._measured_semimajor_axis = float(value)
+            self._measured_semiminor_axis = float(value)
         return
 
     @property
-- 
2.43.0


From 26d19229f45c24aa0895a178406eb44aa072e9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:00 +0000
Subject: [PATCH 12/76] fix: normalizing an already canonical longitude shifted
 it by rounding

---
 cratermaker/utils/general_utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cratermaker/utils/general_utils.py b/cratermaker/utils/general_utils.py
index 746904d..5404ad5 100644
--- a/cratermaker/utils/general_utils.py
+++ b/cratermaker/utils/general_utils.py
@@ -253,9 +253,11 @@ def normalize_coords(location: tuple[FloatLike, FloatLike]) -> tuple[float, floa
             lon = lon + 180
 
     # Normalize longitude to be within [-180, 180)
-    normalized_lon = ((lon + 180) % 360) - 180
-    if normalized_lon >= 180:  # The modulo of a tiny negative number can round up to 360
-        normalized_lon = -180.0
+    normalized_lon = lon
+    if lon < -180 or lon >= 180:  # Longitudes already in range are kept exactly
+        normalized_lon = ((lon + 180) % 360) - 180
+        if normalized_lon >= 180:  # The modulo of a tiny negative number can round up to 360
+            normalized_lon = -180.0
 
     return float(normalized_lon), float(normalized_lat)
 
-- 
2.43.0


From 16785c859b8f84b0ef7fbaf9d4bd9cf104126374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:09 +0000
Subject: [PATCH 13/76] fix: adding a tag to faces without a common free layer
 silently overwrote other tags

---
 cratermaker/components/surface/__init__.py | 24 +++++++---------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 6ef1cae..f0d1b46 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -2300,24 +2300,14 @@ class LocalSurface(CratermakerBase):
             if tag is None:
                 return
 
-        insert_layer = -1
-
-        # Find the first layer that contains a contiguous set of empty spots
-        for attempt in range(2):
-            for i in range(_N_TAG_LAYERS):
-                if np.all(self.uxds[name].data[:, i] == 0):
-                    insert_layer = i
-                    break
-            if insert_layer == -1:  # If at first we don't succed, try sorting the tags and try again.
-                if attempt == 0:
-                    self.sort_tags(name)
-                    break
-                else:
-                    # TODO: Implement an option to expand the number of layers if all layers are full
-                    warnings.warn(f"All {name} layers are full. Overwriting the first layer.", stacklevel=2)
-                    insert_layer = 0
+        # Put the tag into the first empty layer of each face
         data = self.uxds[name].data
-        data[:, insert_layer] = tag
+        is_empty = data == 0
+        if not np.all(np.any(is_empty, axis=1)):
+            # TODO: Implement an option to expand the number of layers if all layers are full
+            warnings.warn(f"All {name} layers are full. Overwriting the first layer.", stacklevel=2)
+        insert_layer = np.argmax(is_empty, axis=1)  # The first layer if none is empty
+        data[np.arange(data.shape[0]), insert_layer] = tag
         self.surface.uxds[name].data[self.face_indices, :] = data
         self._desloped_face_elevation = None  # Invalidate the desloped elevation cache since tags are often used for tracking craters, and we want to be able to get the original elevation of the crater faces if we need to.
 
-- 
2.43.0


From 7d6c185866a91bc520a16c224bb84dd3ce41ce9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:51 +0000
Subject: [PATCH 14/76] fix: node data written through a region could land on
 faces (and scalars on the wrong elements)

---
 cratermaker/components/surface/__init__.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index f0d1b46..0311bdb 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -2157,6 +2157,11 @@ class LocalSurface(CratermakerBase):
             |kwargs|
 
         """
+        # Data that already exists on the surface is either face or node data
+        is_new_data = name not in self.surface.uxds.data_vars
+        if not is_new_data:
+            isfacedata = "n_face" in self.surface.uxds[name].dims
+
         # Check if the data is a scalar or an array
         if np.isscalar(data):
             n = self.n_face if isfacedata else self.n_node
@@ -2165,16 +2170,16 @@ class LocalSurface(CratermakerBase):
             data = np.array(data, dtype=dtype)
         else:
             data = np.asarray(data, dtype=dtype)
-        if data.size == self.n_face:
+        if data.size == self.n_face and (isfacedata or (is_new_data and self.n_face != self.n_node)):
             isfacedata = True
             indices = self.face_indices
-        elif data.size == self.n_node:
+        elif data.size == self.n_node and (not isfacedata or is_new_data):
             isfacedata = False
             indices = self.node_indices
         else:
             raise ValueError("data must be a scalar or an array with the same size as the number of faces or nodes in the grid")
 
-        if name not in self.surface.uxds.data_vars:
+        if is_new_data:
             overwrite = True
             self.surface._add_new_data(
                 name, data=fill_value, long_name=long_name, units=units, isfacedata=isfacedata, dtype=dtype, **kwargs
-- 
2.43.0


From 119e115d4db692b2d1de9c8cfb48909de68e0370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:31 +0000
Subject: [PATCH 15/76] fix: emplacing an empty list of craters raised an error
 instead of emplacing nothing

---
 cratermaker/components/morphology/basicmoon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/morphology/basicmoon.py b/cratermaker/components/morphology/basicmoon.py
index 0b81ef8..b0ec840 100644
--- a/cratermaker/components/morphology/basicmoon.py
+++ b/cratermaker/components/morphology/basicmoon.py
@@ -199,7 +199,7 @@ class BasicMoonMorphology(Morphology):
         """
         if craters is None:
             craters = [BasicMoonCrater.maker(morphology=self, **kwargs)]
-        elif isinstance(craters, (list | tuple)) and len(craters) > 0:
+        elif isinstance(craters, (list | tuple)):
             processed_craters = []
             for c in tqdm(
                 craters,
-- 
2.43.0


From 2e3ab4887a321e937b6cce09adedd90093745cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:04 +0000
Subject: [PATCH 16/76] fix: counting a crater outside the local area of a
 high-resolution surface without tags raised an error

---
 cratermaker/components/counting/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index a8b9e86..8f2490a 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -202,7 +202,7 @@ class Counting(ComponentBase):
             )
 
             # Check to make sure the crater was recorded to the surface. HiResLocal surfaces may not record craters in the superdomain
-            if crater.id in self.surface.uxds.crater_id:
+            if "crater_id" in self.surface.uxds and crater.id in self.surface.uxds.crater_id:
                 self.observed[crater.id] = crater
             else:
                 return
-- 
2.43.0


From 73b4467e1874adf8d2fdfeab8a2c321b180cb456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:08 +0000
Subject: [PATCH 17/76] fix: reopening listed craters of an earlier interval
 when the last saved one had none, and re-saving an interval kept craters that
 were gone

---
 cratermaker/components/counting/__init__.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index 8f2490a..8d65136 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -85,14 +85,16 @@ class Counting(ComponentBase):
         ]
 
         if not reset:
-            observed, emplaced = self.read_saved_output(interval=-1)
+            # Load the craters of the interval that the surface was loaded from. There is no file for a list that was empty in that interval
+            surface_intervals = (self.surface.get_saved_interval_numbers() or (None,))[0]
+            interval = surface_intervals[-1] if surface_intervals else -1
+            observed, emplaced = self.read_saved_output(interval=interval)
             if observed:
-                interval = observed.interval.values[-1]
-                observed = self.Crater.from_xarray(observed, interval=interval)
+                observed = self.Crater.from_xarray(observed, interval=observed.interval.values[-1])
                 for crater in observed:
                     self._observed[crater.id] = crater
-                if emplaced:
-                    self._emplaced = self.Crater.from_xarray(emplaced, interval=interval)
+            if emplaced:
+                self._emplaced = self.Crater.from_xarray(emplaced, interval=emplaced.interval.values[-1])
         return
 
     @classmethod
@@ -483,8 +485,10 @@ class Counting(ComponentBase):
         elif crater_type == "both":
             iterator = zip([self.observed, self.emplaced], ["observed", "emplaced"], strict=True)
         for craters, crater_type in iterator:
-            if craters:
-                filename = self.output_dir / f"{crater_type}_{self.output_filename(interval)}"
+            filename = self.output_dir / f"{crater_type}_{self.output_filename(interval)}"
+            if not craters:
+                filename.unlink(missing_ok=True)  # An earlier list of this interval is no longer valid
+            else:
                 ds = self.to_xarray(craters)
                 ds = ds.expand_dims(dim="interval").assign_coords({"interval": [interval]})
                 if time_variables is not None:
-- 
2.43.0


From 46de586fed9a42c6b0cb9e018a713d0cc1a519de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:35 +0000
Subject: [PATCH 18/76] fix: tallying the craters of a region always failed

---
 cratermaker/components/counting/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index 8d65136..31d7510 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -348,6 +348,8 @@ class Counting(ComponentBase):
         .. [#] Minton, D.A., Fassett, C.I., Hirabayashi, M., Howl, B.A., Richardson, J.E., (2019). The equilibrium size-frequency distribution of small craters reveals the effects of distal ejecta on lunar landscape morphology. Icarus 326, 63-87. `doi: 10.1016/j.icarus.2019.02.021 <https://doi.org/10.1016/j.icarus.2019.02.021>`_
 
         """
+        from cratermaker.components.surface import LocalSurface
+
         if region is None:
             region = self.surface
             if hasattr(self.surface, "crater_id"):
-- 
2.43.0


From 92e32e0bdce6617ef27e5c550129468547ef1ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:35 +0000
Subject: [PATCH 19/76] fix: reopening a simulation did not restore its random
 number generator, and setting rng_state or giving it with rng_seed had no
 effect or failed

---
 cratermaker/core/base.py           | 9 +++++++--
 cratermaker/core/simulation.py     | 7 +++++++
 cratermaker/utils/general_utils.py | 2 ++
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/cratermaker/core/base.py b/cratermaker/core/base.py
index 2b561b7..a2dfe15 100644
--- a/cratermaker/core/base.py
+++ b/cratermaker/core/base.py
@@ -770,7 +770,12 @@ class CratermakerBase:
 
     @rng_state.setter
     def rng_state(self, value):
-        _, self._rng_state = _rng_init(rng=self.rng, rng_seed=self.rng_seed, rng_state=value)
+        if value is not None:
+            try:
+                self.rng.bit_generator.state = value
+            except Exception as e:
+                raise ValueError("Invalid rng_state provided.") from e
+        self._rng_state = self.rng.bit_generator.state
 
     @property
     def common_args(self) -> CommonArgs:
@@ -941,7 +946,7 @@ def _rng_init(
         if not isinstance(rng, Generator):
             raise ValueError("rng must be a numpy.random.Generator instance.")
     else:
-        if rng_seed is None:
+        if rng_seed is None or rng_state is not None:
             rng = np.random.default_rng()
         if rng_state is not None:
             if not isinstance(rng_state, dict):
diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index cf34545..82286f5 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -235,6 +235,13 @@ class Simulation(CratermakerBase):
                 # Trigger a reprocessing to get the craters into the updated Crater class
                 self.quasimc_craters = self.quasimc_craters
 
+        # Continue with the random number generator of the previous run unless a different one was requested. This is done last because initializing the components may draw from the generator.
+        if config_file is not None and not self.is_new and rng is None and rng_seed is None and rng_state is None:
+            with Path.open(config_file) as f:
+                saved_state = (yaml.safe_load(f) or {}).get("rng_state", None)
+            if saved_state is not None and saved_state.get("bit_generator") == self.rng_state["bit_generator"]:
+                self.rng_state = saved_state
+
         if self.is_new:
             object.__setattr__(self, "_config_readonly", False)
             # The Surface has already had its reset method called.
diff --git a/cratermaker/utils/general_utils.py b/cratermaker/utils/general_utils.py
index 5404ad5..564170a 100644
--- a/cratermaker/utils/general_utils.py
+++ b/cratermaker/utils/general_utils.py
@@ -95,6 +95,8 @@ def _set_properties(
         for key, value in kwargs.items():
             if value is None:
                 continue
+            if key == "rng_state" and kwargs.get("rng", None) is not None:
+                continue  # The state of a generator that is passed is used as is
             param = getattr(cls, key, None)
             if isinstance(param, (property, Parameter)) and getattr(param, "fset", None) is not None:
                 setattr(obj, key, value)
-- 
2.43.0


From 7deddc46bb187e350106e8dc7ea2cb63c2944211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:09 +0000
Subject: [PATCH 20/76] fix: a restarted simulation never recorded its
 progress, and after an interruption the clock could be ahead of the saved
 surface

---
 cratermaker/core/simulation.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 82286f5..bbe2f53 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -226,6 +226,12 @@ class Simulation(CratermakerBase):
             # The surface should now hav its is_new attribute set and will be set to True if it had to be regridded
             self.is_new = self.surface.is_new
 
+        # A restarted simulation continues from the state that its surface was loaded from
+        if not self.is_new and all(name in self.surface.uxds for name in ("time", "elapsed_time", "elapsed_n1")):
+            self.interval = int(self.surface.uxds.interval)
+            for name in ("time", "elapsed_time", "elapsed_n1"):
+                setattr(self, name, float(self.surface.uxds[name]))
+
         self._max_crater_diameter_range = (min(self.surface.face_size), self.target.diameter)
         self.smallest_crater = max(self.smallest_crater, self._max_crater_diameter_range[0])
         self.largest_crater = min(self.largest_crater, self._max_crater_diameter_range[1])
@@ -881,10 +887,13 @@ class Simulation(CratermakerBase):
             Additional keyword argumments to pass to the component save methods.
         """
         save_args = {"interval": self.interval, "time_variables": self.time_variables, **kwargs}
-        self.surface.save(**save_args)
-
+        # The surface is saved last, because the last saved surface determines which interval a restarted simulation continues from
         self.counting.save(**save_args)
 
+        self.surface.save(**save_args)
+
+        # The configuration has to follow the saved state, also for a simulation that was restarted
+        object.__setattr__(self, "_config_readonly", False)
         self.to_config(**kwargs)
         super().save(**save_args)
 
-- 
2.43.0


From 18eac59641508914d460d941b6ea6b330bfb9f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:02 +0000
Subject: [PATCH 21/76] fix: N(D) requests given to production.sample were
 scaled by the unit conversion in the wrong direction, and an ending N(D) at
 another diameter could not be resolved to a time

---
 cratermaker/components/production/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index b8ae8bc..4e3e2ab 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -666,14 +666,14 @@ class Production(ComponentBase):
             if time_start is not None:
                 raise ValueError("Cannot provide both N_D and time_start")
             time_start = self.age_from_D_N(
-                diameter=N_D[0] * self.D_conversion_factor, cumulative_number_density=N_D[1] * self.N_conversion_factor
+                diameter=N_D[0] * self.D_conversion_factor, cumulative_number_density=N_D[1] / self.N_conversion_factor
             )
 
         if N_D_end is not None:
             if time_end is not None:
                 raise ValueError("Cannot provide both N_D_end and time_end")
             time_end = self.age_from_D_N(
-                diameter=N_D_end[0] * self.D_conversion_factor, cumulative_number_density=N_D_end[1] * self.N_conversion_factor
+                diameter=N_D_end[0] * self.D_conversion_factor, cumulative_number_density=N_D_end[1] / self.N_conversion_factor
             )
         diameter_number = kwargs.get("diameter_number")
         diameter_number_end = kwargs.get("diameter_number_end")
@@ -742,6 +742,8 @@ class Production(ComponentBase):
             # If not, we need to adjust the end diameter value it so that they match
             if diameter_number is not None:
                 if diameter_number_density_end[0] != diameter_number_density[0]:
+                    if time_end is None:
+                        time_end = self.age_from_D_N(*diameter_number_density_end)
                     diameter_number_density_end = (
                         diameter_number_density[0],
                         self.function(diameter=diameter_number_density[0], time_start=time_end),
-- 
2.43.0


From cbab7ba64358ddac911ab3689bc0cd50882eaba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:02 +0000
Subject: [PATCH 22/76] fix: run intervals did not partition the requested
 range (overshot elapsed time, rounding added, repeated or crashed the last
 interval) and N(D)/diameter_number requests with intervals failed

---
 cratermaker/core/simulation.py | 81 ++++++++++++----------------------
 1 file changed, 28 insertions(+), 53 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index bbe2f53..8ddc72a 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -6,7 +6,6 @@ import pyvista
 import yaml
 from matplotlib.axes import Axes
 from numpy.random import Generator
-from numpy.typing import ArrayLike
 from tqdm import tqdm
 
 from cratermaker.components.counting import Counting
@@ -22,6 +21,8 @@ from cratermaker.constants import _COMPONENT_NAMES, _CONFIG_FILE_NAME, _DSTD, Fl
 from cratermaker.core.base import CratermakerBase, _convert_for_yaml
 from cratermaker.utils.general_utils import _set_properties, format_large_units, parameter
 
+_INTERVAL_TOL = 1e-6  # Fraction of an interval below which a difference in time or number is considered to be rounding
+
 
 class Simulation(CratermakerBase):
     """
@@ -379,15 +380,17 @@ class Simulation(CratermakerBase):
         elif time_end is not None:
             if self._time is None:
                 raise ValueError("time_end cannot be used without time_start")
+            if N_D is not None or diameter_number is not None:
+                raise ValueError("Cannot specify both time_end and N_D or diameter_number")
             time_start = self.time
         elif N_D is not None:
             if diameter_number is not None or diameter_number_end is not None:
                 raise ValueError("Cannot specify both N_D and diameter_number")
-            if not isinstance(N_D, (list, tuple, ArrayLike)) or len(N_D) != 2:
+            if not isinstance(N_D, (list, tuple, np.ndarray)) or len(N_D) != 2:
                 raise ValueError("N_D must be a pair of values (diameter, number)")
             if N_D_end is None:
                 N_D_end = (N_D[0], 0.0)
-            elif not isinstance(N_D_end, (list, tuple, ArrayLike)) or len(N_D_end) != 2:
+            elif not isinstance(N_D_end, (list, tuple, np.ndarray)) or len(N_D_end) != 2:
                 raise ValueError("N_D_end must be a pair of values (diameter, number)")
 
             diameter_number = (
@@ -424,6 +427,8 @@ class Simulation(CratermakerBase):
         kwargs["ninterval"] = ninterval
         kwargs["time_interval"] = time_interval
         kwargs = self.production._validate_sample_args(**kwargs)
+        time_start = kwargs["time_start"]
+        time_end = kwargs["time_end"]
 
         if is_time_interval:
             if time_interval is None:
@@ -435,7 +440,7 @@ class Simulation(CratermakerBase):
                     raise ValueError("time_interval must be less than age or time_start - time_end")
                 elif time_interval <= 0:
                     raise ValueError("time_interval must be greater than zero")
-                ninterval = int(np.ceil((time_start - time_end) / time_interval))
+                ninterval = max(int(np.ceil((time_start - time_end) / time_interval - _INTERVAL_TOL)), 1)
 
             kwargs["time_interval"] = time_interval
             kwargs["ninterval"] = ninterval
@@ -547,17 +552,13 @@ class Simulation(CratermakerBase):
         ninterval = arguments.pop("ninterval", None)
         is_time_interval = arguments.pop("is_time_interval", None)
         validate_inputs = kwargs.pop("validate_inputs", False)
+        # The requested range has now been converted to times, so these should not be passed along to populate and save
+        kwargs.pop("diameter_number", None)
+        kwargs.pop("diameter_number_end", None)
         if ninterval == 1:
             is_time_interval = True
             time_interval = time_start - time_end
 
-        if not is_time_interval:
-            diameter_number_density_start = (
-                diameter_number[0],
-                diameter_number[1] / self.surface.area,
-            )
-            time_start = self.production.age_from_D_N(*diameter_number_density_start, validate_inputs=validate_inputs)
-
         # If this is a fresh run, we need to set the value of the current time based on the requested starting condition.
         if self._time is None:
             self.time = time_start
@@ -569,7 +570,7 @@ class Simulation(CratermakerBase):
                 "Starting time cannot be later than the current time. Choose a starting time value equal to or larger than the current time, or reset this simulation."
             )
         if is_time_interval:
-            initial_interval = int((time_start - self.time) / time_interval)
+            initial_interval = int((time_start - self.time) / time_interval + _INTERVAL_TOL)
         else:
             delta_n1_start = self.production.function(
                 diameter=_DSTD,
@@ -586,7 +587,7 @@ class Simulation(CratermakerBase):
                 ).item()
                 / ninterval
             )
-            initial_interval = int(delta_n1_start / n1_interval)
+            initial_interval = int(delta_n1_start / n1_interval + _INTERVAL_TOL)
 
         if self.is_new:
             self.save(**kwargs)
@@ -600,50 +601,24 @@ class Simulation(CratermakerBase):
         ) as pbar:
             for i in range(initial_interval, ninterval):
                 self.counting._emplaced = []
-                if is_time_interval:
-                    time = time_start - i * time_interval
+                # The time range of this interval begins where the previous one left off. The final interval ends at exactly the requested ending time
+                time = self.time
+                if i == ninterval - 1:
+                    current_time_end = time_end
+                elif is_time_interval:
                     current_time_end = time_start - (i + 1) * time_interval
-                    if current_time_end < time_end:
-                        current_time_end = time_end
-                    time_str = format_large_units(time, quantity="time")
-                    elapsed_str = format_large_units(self.elapsed_time, quantity="time")
-                    pbar.set_description(f"Current: {time_str} bp; Elapsed: {elapsed_str}")
-                    self.populate(time_start=time, time_end=current_time_end, **kwargs)
                 else:
-                    current_diameter_number = (
-                        diameter_number[0],
-                        diameter_number[1] - i * diameter_number_interval[1],
-                    )
-                    current_diameter_number_end = (
+                    current_time_end = self.production.age_from_D_N(
                         diameter_number[0],
-                        diameter_number[1] - (i + 1) * diameter_number_interval[1],
-                    )
-                    self.populate(
-                        diameter_number=current_diameter_number,
-                        diameter_number_end=current_diameter_number_end,
-                        **kwargs,
-                    )
-                    current_diameter_number_density = (
-                        current_diameter_number[0],
-                        current_diameter_number[1] / self.surface.area,
+                        (diameter_number[1] - (i + 1) * diameter_number_interval[1]) / self.surface.area,
+                        validate_inputs=validate_inputs,
                     )
-                    time = self.production.age_from_D_N(*current_diameter_number_density, validate_inputs=validate_inputs)
-                    if current_diameter_number_end[1] > 0:
-                        current_diameter_number_density_end = (
-                            current_diameter_number_end[0],
-                            current_diameter_number_end[1] / self.surface.area,
-                        )
-
-                        current_time_end = self.production.age_from_D_N(
-                            *current_diameter_number_density_end,
-                            validate_inputs=validate_inputs,
-                        )
-                    else:
-                        current_time_end = 0.0
-                    if current_time_end < 0.0:
-                        current_time_end = 0.0
-                    time_interval = time - current_time_end
-                self.elapsed_time += time_interval
+                current_time_end = max(current_time_end, time_end)
+                time_str = format_large_units(time, quantity="time")
+                elapsed_str = format_large_units(self.elapsed_time, quantity="time")
+                pbar.set_description(f"Current: {time_str} bp; Elapsed: {elapsed_str}")
+                self.populate(time_start=time, time_end=current_time_end, **kwargs)
+                self.elapsed_time += time - current_time_end
                 self.elapsed_n1 += (
                     self.production.function(
                         diameter=_DSTD,
-- 
2.43.0


From 70deb45328989c12355fa5d339804c06946ffe10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:37 +0000
Subject: [PATCH 23/76] fix: scheduled craters set after the first use of
 do_quasimc were never merged, do_quasimc could not be set, and merging
 without a schedule returned the craters by size instead of by age

---
 cratermaker/components/production/__init__.py | 2 +-
 cratermaker/core/simulation.py                | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index 4e3e2ab..82f8da8 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -924,7 +924,7 @@ class Production(ComponentBase):
             qmclist = [c for c in self.quasimc_craters if c.time <= time_start and c.time > time_end]
             qmclist.sort(key=lambda c: c.diameter, reverse=False)
         else:
-            return rnglist
+            qmclist = []
 
         merged = []
         qidx = 0
diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 8ddc72a..1c0329d 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -1855,7 +1855,7 @@ class Simulation(CratermakerBase):
             True if quasi-Monte Carlo sampling is being used, False otherwise.
         """
         if self._do_quasimc is None:
-            self._do_quasimc = (
+            return (
                 len(self.production.quasimc_craters) > 0
                 if self.production is not None and self.production.quasimc_craters is not None
                 else False
@@ -1864,7 +1864,7 @@ class Simulation(CratermakerBase):
 
     @do_quasimc.setter
     def do_quasimc(self, value: bool | None):
-        if not isinstance(value, (bool, None)):
+        if value is not None and not isinstance(value, bool):
             raise TypeError("do_quasimc must be a boolean value or None")
         self._do_quasimc = value
 
-- 
2.43.0


From 6b9c9df59ebb6830306dbdb8bca023c0d9c8ce7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:50 +0000
Subject: [PATCH 24/76] fix: a power law production function's slope and
 coefficient were not stored in the configuration, and a positive slope set
 later was not flipped

---
 cratermaker/components/production/powerlaw.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cratermaker/components/production/powerlaw.py b/cratermaker/components/production/powerlaw.py
index 67b671f..4af178c 100644
--- a/cratermaker/components/production/powerlaw.py
+++ b/cratermaker/components/production/powerlaw.py
@@ -7,6 +7,7 @@ from numpy.typing import ArrayLike, NDArray
 
 from cratermaker.components.production import Production
 from cratermaker.constants import FloatLike
+from cratermaker.utils.general_utils import parameter
 
 
 @Production.register("powerlaw")
@@ -74,8 +75,6 @@ class PowerLawProduction(Production):
 
         if not isinstance(slope, FloatLike):
             raise TypeError("slope must be a float")
-        elif slope > 0.0:  # Slope must be negative, but convention in the field is mixed. So we flip the sign if it is positive.
-            slope *= -1
         self.slope = slope
 
     def __str__(self) -> str:
@@ -196,7 +195,7 @@ class PowerLawProduction(Production):
         """
         return self.N1_coef * diameter**self.slope
 
-    @property
+    @parameter
     def N1_coef(self):
         """The N1 coefficient of the power law production function."""
         return self._N1_coef
@@ -209,7 +208,7 @@ class PowerLawProduction(Production):
             raise ValueError("N1_coef must be positive")
         self._N1_coef = value
 
-    @property
+    @parameter
     def slope(self):
         """The slope of the power law production function."""
         return self._slope
@@ -218,4 +217,6 @@ class PowerLawProduction(Production):
     def slope(self, value):
         if not isinstance(value, FloatLike):
             raise TypeError("slope must be a numeric value (float or int)")
+        if value > 0.0:  # Slope must be negative, but convention in the field is mixed. So we flip the sign if it is positive.
+            value *= -1
         self._slope = value
-- 
2.43.0


From eb109d03fefc31b1f1a245849b2bc88d86f2033d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:50 +0000
Subject: [PATCH 25/76] fix: the power law chronology was the same for every
 time span

---
 cratermaker/components/production/powerlaw.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cratermaker/components/production/powerlaw.py b/cratermaker/components/production/powerlaw.py
index 4af178c..912a929 100644
--- a/cratermaker/components/production/powerlaw.py
+++ b/cratermaker/components/production/powerlaw.py
@@ -175,9 +175,7 @@ class PowerLawProduction(Production):
                 else:
                     time_end = np.zeros_like(time_start)
 
-        N1km = self.csfd(1000.0, time_start=time_start, time_end=time_start, validate_inputs=False)
-
-        return N1km
+        return np.asarray(time_start) - np.asarray(time_end)
 
     def csfd(self, diameter: FloatLike | ArrayLike, **kwargs: Any) -> FloatLike | ArrayLike:
         """
-- 
2.43.0


From a6622a865b9a054efa5788b374bb393ccb4d0c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:48 +0000
Subject: [PATCH 26/76] fix: asking again for a range that is already complete
 failed or turned the clock back when the interval does not divide the range

---
 cratermaker/core/simulation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 1c0329d..c671cc7 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -600,7 +600,6 @@ class Simulation(CratermakerBase):
             leave=True,
         ) as pbar:
             for i in range(initial_interval, ninterval):
-                self.counting._emplaced = []
                 # The time range of this interval begins where the previous one left off. The final interval ends at exactly the requested ending time
                 time = self.time
                 if i == ninterval - 1:
@@ -614,6 +613,10 @@ class Simulation(CratermakerBase):
                         validate_inputs=validate_inputs,
                     )
                 current_time_end = max(current_time_end, time_end)
+                if current_time_end >= time:  # This interval has already been completed
+                    pbar.update(1)
+                    continue
+                self.counting._emplaced = []
                 time_str = format_large_units(time, quantity="time")
                 elapsed_str = format_large_units(self.elapsed_time, quantity="time")
                 pbar.set_description(f"Current: {time_str} bp; Elapsed: {elapsed_str}")
-- 
2.43.0


From 02fb812ff4b54101d897c4c47ef4aa409ff2992b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:51 +0000
Subject: [PATCH 27/76] fix: saving a simulation replaced the formation time of
 every listed crater by the simulation's current time, so craters changed
 identity when it was reopened

---
 cratermaker/components/counting/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index 31d7510..70e796c 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -495,6 +495,8 @@ class Counting(ComponentBase):
                 ds = ds.expand_dims(dim="interval").assign_coords({"interval": [interval]})
                 if time_variables is not None:
                     for k, v in time_variables.items():
+                        if k in ds:  # Do not replace a crater attribute, such as its formation time
+                            continue
                         ds[k] = xr.DataArray(data=[v], name=k, dims=["interval"], coords={"interval": [interval]})
                 if filename.exists():
                     filename.unlink()
-- 
2.43.0


From 845bcffb76dca14969b413f743dc172fc429611f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:46 +0000
Subject: [PATCH 28/76] fix: craters saved without a formation time were read
 back with the simulation's time

---
 cratermaker/components/counting/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index 70e796c..327d3b9 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -495,7 +495,8 @@ class Counting(ComponentBase):
                 ds = ds.expand_dims(dim="interval").assign_coords({"interval": [interval]})
                 if time_variables is not None:
                     for k, v in time_variables.items():
-                        if k in ds:  # Do not replace a crater attribute, such as its formation time
+                        if any(hasattr(c, k) for c in (craters.values() if isinstance(craters, dict) else craters)):
+                            # This is a crater attribute, such as its formation time, and not a property of the interval
                             continue
                         ds[k] = xr.DataArray(data=[v], name=k, dims=["interval"], coords={"interval": [interval]})
                 if filename.exists():
-- 
2.43.0


From 43b8b7ebe65e47e53593907911a5f545df321874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:19 +0000
Subject: [PATCH 29/76] fix: keep ejecta_truncation and dorays given at
 creation in the saved configuration

---
 cratermaker/components/morphology/basicmoon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/morphology/basicmoon.py b/cratermaker/components/morphology/basicmoon.py
index b0ec840..10f2861 100644
--- a/cratermaker/components/morphology/basicmoon.py
+++ b/cratermaker/components/morphology/basicmoon.py
@@ -165,9 +165,9 @@ class BasicMoonMorphology(Morphology):
         """
         object.__setattr__(self, "_ejecta_truncation", None)
         object.__setattr__(self, "_node", None)
+        super().__init__(surface=surface, rng=rng, rng_seed=rng_seed, rng_state=rng_state, **kwargs)
         self.ejecta_truncation = ejecta_truncation
         self.dorays = dorays
-        super().__init__(surface=surface, rng=rng, rng_seed=rng_seed, rng_state=rng_state, **kwargs)
         return
 
     def __str__(self) -> str:
-- 
2.43.0


From b875828a2d4814db4502230a32d7363525721314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:19 +0000
Subject: [PATCH 30/76] fix: let an explicitly named production model and
 version decide over the target

---
 cratermaker/components/production/__init__.py | 37 +++++++++----------
 cratermaker/components/production/neukum.py   |  4 ++
 2 files changed, 22 insertions(+), 19 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index 82f8da8..608a13c 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -152,30 +152,26 @@ class Production(ComponentBase):
             If there is an error initializing the production model.
 
         """
-        set_version = False
-        version = None
-        if production is None:
-            set_version = True
-        elif isinstance(production, str):
+        version = kwargs.pop("version", None)
+        store_version = version is not None
+        if isinstance(production, str):
             production = production.lower()
-            if production == "neukum":
-                set_version = True
-            if set_version:
-                version = kwargs.pop("version", None)
-                if target is None and version is not None and version in ["Moon", "Mars"]:
-                    target = version
-                target = Target.maker(target, **kwargs)
-                if target.name in ["Mercury", "Venus", "Earth", "Moon", "Mars"]:
+        if production is None or production == "neukum":
+            if target is None and version is not None and version.title() in ["Moon", "Mars"]:
+                target = version.title()
+            target = Target.maker(target, **kwargs)
+            if production is None:
+                if version is not None or target.name in ["Mercury", "Venus", "Earth", "Moon", "Mars"]:
                     production = "neukum"
-                    if version is None or version != "projectile":
-                        if target.name in ["Moon", "Mars"]:
-                            version = target.name
-                        else:
-                            version = "projectile"
                 else:
                     production = "powerlaw"
+            if production == "neukum" and version is None:
+                if target.name in ["Moon", "Mars"]:
+                    version = target.name
+                else:
+                    version = "projectile"
 
-        return super().maker(
+        component = super().maker(
             component=production,
             version=version,
             target=target,
@@ -189,6 +185,9 @@ class Production(ComponentBase):
             rng_state=rng_state,
             **kwargs,
         )
+        if store_version and component is not production and hasattr(component, "version"):
+            component.version = version  # An explicitly requested version is stored in the configuration
+        return component
 
     def sample(
         self,
diff --git a/cratermaker/components/production/neukum.py b/cratermaker/components/production/neukum.py
index 5c29c32..4878006 100644
--- a/cratermaker/components/production/neukum.py
+++ b/cratermaker/components/production/neukum.py
@@ -239,6 +239,10 @@ class NeukumProduction(Production):
         if value.title() not in self.valid_versions:
             raise ValueError(f"Invalid version '{value}'. Valid options are {self.valid_versions}")
         self._version = value.title()
+        # The coefficients of the chronology depend on the version
+        self._Cexp = None
+        self._Clin = None
+        self._tau = None
 
         if self._version == "Projectile":
             self._generator_type = "projectile"
-- 
2.43.0


From 31ca5665038ae20d8d17970571c82db4898fd971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:07 +0000
Subject: [PATCH 31/76] fix: formation times follow the chronology (the
 cumulative number was accumulated twice)

---
 cratermaker/components/production/__init__.py | 20 +++++--------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index 608a13c..3aeb40f 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -313,24 +313,14 @@ class Production(ComponentBase):
             **kwargs,
         )
 
-        # Normalize the weights for each diameter
+        # N(t) grows with age, so its increase over the interval, normalized, is the CDF of the formation time of each diameter
         if N_vs_age.ndim > 1:
-            N_vs_age -= np.min(N_vs_age, axis=1)[:, None]  # Subtract the min along age dimension
-            N_vs_age = N_vs_age[:, :-1]  # Remove the last value to avoid the cumulative sum reaching 1
-            weights_sum = np.sum(N_vs_age, axis=1)[:, None]  # Sum of weights for each diameter
-            weights = N_vs_age / weights_sum  # Normalize weights for each diameter
-
-            # Compute the CDF for each diameter
-            cdf = np.cumsum(weights, axis=1)
-
+            N_vs_age = N_vs_age - N_vs_age[:, :1]
+            cdf = N_vs_age / N_vs_age[:, -1:]
         else:
             if len(N_vs_age) > 0:
-                N_vs_age -= np.min(N_vs_age)  # Subtract the min along age dimension
-                N_vs_age = N_vs_age[:-1]  # Remove the last value to avoid the cumulative sum reaching 1
-                weights_sum = np.sum(N_vs_age)  # Sum of weights for each diameter
-                weights = N_vs_age / weights_sum  # Normalize weights for each diameter
-                # Compute the CDF for each diameter
-                cdf = np.cumsum(weights)
+                N_vs_age = N_vs_age - N_vs_age[0]
+                cdf = N_vs_age / N_vs_age[-1]
             else:
                 cdf = np.empty(0)
 
-- 
2.43.0


From 5b9705920cdd1478ee5a6737f711c7a182548432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:29 +0000
Subject: [PATCH 32/76] fix: estimating a diameter limit no longer draws from
 the simulation's random stream

---
 cratermaker/core/simulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index c671cc7..de1eb21 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -1407,6 +1407,8 @@ class Simulation(CratermakerBase):
             The smallest crater diameter given a projectile diameter or the smallest projectile diameter given a crater diameter
         """
         scaling = Scaling.maker(self.scaling)
+        # An estimate must not disturb the random number generator, because it is made whenever a limit is looked up
+        rng_state = self.rng.bit_generator.state
         if limit == "smallest":
             angle = 1.0
             projectile_velocity = scaling.projectile.mean_velocity * 0.1
@@ -1428,6 +1430,7 @@ class Simulation(CratermakerBase):
                 projectile_velocity=projectile_velocity,
                 **vars(self.common_args),
             ).diameter
+            self.rng.bit_generator.state = rng_state
             if limit == "smallest":
                 return float(max(crater_diameter, self.max_crater_diameter_range[0]))
             elif limit == "largest":
@@ -1444,6 +1447,7 @@ class Simulation(CratermakerBase):
                 projectile_velocity=projectile_velocity,
                 **vars(self.common_args),
             ).projectile_diameter
+            self.rng.bit_generator.state = rng_state
             return float(projectile_diameter)
 
     @property
-- 
2.43.0


From d2fd79454db3dd9de2d3ecfa0d2358e7bf43b3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:29 +0000
Subject: [PATCH 33/76] fix: setting smallest_projectile or largest_projectile
 sets the limit that was asked for

---
 cratermaker/core/simulation.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index de1eb21..accf7e2 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -1697,9 +1697,12 @@ class Simulation(CratermakerBase):
             return
         if self.production.generator_type == "projectile":
             minval = max(value, self._get_diameter_limit("smallest", crater_diameter=self.max_crater_diameter_range[0]))
-            maxval = min(self.production.diameter_range[1], self._get_diameter_limit("largest", self.max_crater_diameter_range[1]))
+            maxval = min(
+                self.production.diameter_range[1],
+                self._get_diameter_limit("largest", crater_diameter=self.max_crater_diameter_range[1]),
+            )
         elif self.production.generator_type == "crater":
-            minval = max(value, self.production.diameter_range[0])
+            minval = self._get_diameter_limit("smallest", projectile_diameter=value)
             maxval = min(self.production.diameter_range[1], self.max_crater_diameter_range[1])
         else:
             raise ValueError("Unknown Production generator_type. Expecting either 'crater' or 'projectile'")
@@ -1730,8 +1733,8 @@ class Simulation(CratermakerBase):
             )
             maxval = min(value, self._get_diameter_limit("largest", crater_diameter=self.max_crater_diameter_range[1]))
         elif self.production.generator_type == "crater":
-            minval = max(self.production.diameter_range[0], self.max_crater_diameter_range[1])
-            maxval = self._get_diameter_limit("largest", crater_diameter=value)
+            minval = max(self.production.diameter_range[0], self.max_crater_diameter_range[0])
+            maxval = self._get_diameter_limit("largest", projectile_diameter=value)
         else:
             raise ValueError("Unknown Production generator_type. Expecting either 'crater' or 'projectile'")
 
-- 
2.43.0


From 5bdd31f898bb3b2d80dcf8397da02dcb0ff6fc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:56 +0000
Subject: [PATCH 34/76] fix: crater size limits given at creation or saved with
 a run take effect

---
 cratermaker/core/simulation.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index accf7e2..13484f1 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -242,6 +242,19 @@ class Simulation(CratermakerBase):
                 # Trigger a reprocessing to get the craters into the updated Crater class
                 self.quasimc_craters = self.quasimc_craters
 
+        # The size limits can only be applied now that the components exist. Explicit values win over those of the previous run
+        limits = [f"smallest_{self.production.generator_type}", f"largest_{self.production.generator_type}"]
+        new_production = isinstance(production, Production) or "quasimc_file" in kwargs or "quasimc_craters" in kwargs
+        if config_file is not None and not self.is_new and not new_production:
+            with Path.open(config_file) as f:
+                saved_config = yaml.safe_load(f) or {}
+            if all(saved_config.get(name, None) is not None for name in limits):
+                self.production.diameter_range = [saved_config[name] for name in limits]
+        self._user_defined.update(limits)
+        for name in ("largest_crater", "largest_projectile", "smallest_crater", "smallest_projectile"):
+            if kwargs.get(name, None) is not None:
+                setattr(self, name, kwargs[name])
+
         # Continue with the random number generator of the previous run unless a different one was requested. This is done last because initializing the components may draw from the generator.
         if config_file is not None and not self.is_new and rng is None and rng_seed is None and rng_state is None:
             with Path.open(config_file) as f:
-- 
2.43.0


From 6e99c8d878ff64b61472e054dc756387bf89d756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:26 +0000
Subject: [PATCH 35/76] fix: a refused setting no longer leaves its mark in the
 built-in catalogue

---
 cratermaker/utils/general_utils.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/cratermaker/utils/general_utils.py b/cratermaker/utils/general_utils.py
index 564170a..fc1749f 100644
--- a/cratermaker/utils/general_utils.py
+++ b/cratermaker/utils/general_utils.py
@@ -125,16 +125,12 @@ def _set_properties(
         if key not in catalogue:
             return {}, {}
 
-        properties = catalogue.get(key)
-        properties.update({catalogue_key: key})
+        properties = {**catalogue[key], catalogue_key: key}  # Never change the catalogue itself
         # Remove any items in kwargs that are already in properties
         for k in properties:
             if k in kwargs:
                 del kwargs[k]
-        if properties:  # A match was found to the catalogue
-            matched, unmatched = _set_properties_from_arguments(obj, **properties, **kwargs)
-            properties.pop(catalogue_key)  # Make sure that the catlogue key doesn't stay in the properties
-        return matched, unmatched
+        return _set_properties_from_arguments(obj, **properties, **kwargs)
 
     def _set_properties_from_file(obj, config_file, key=None, **kwargs):
         try:
-- 
2.43.0


From cb05a07a7dc21c2895dbfb7ec8426db2d6279604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:07 +0000
Subject: [PATCH 36/76] fix: the mass and transition type of the target are
 kept in the saved configuration

---
 cratermaker/components/target/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/target/__init__.py b/cratermaker/components/target/__init__.py
index 6011b59..d6e8163 100644
--- a/cratermaker/components/target/__init__.py
+++ b/cratermaker/components/target/__init__.py
@@ -270,7 +270,7 @@ class Target(ComponentBase):
         if self.radius is not None:
             return 2 * np.pi * self.radius
 
-    @property
+    @parameter
     def mass(self) -> float | None:
         """The mass of the target body in kilograms."""
         return self._mass
@@ -350,7 +350,7 @@ class Target(ComponentBase):
         """The key used to identify the property used as the key in a catalogue."""
         return "name"
 
-    @property
+    @parameter
     def transition_scale_type(self):
         """The type of simple-to-complex transition scaling used for the surface, either 'silicate' or 'ice'."""
         return self._transition_scale_type
-- 
2.43.0


From 9180b305c8d0843786b9ab70ed5b7d884e3784fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:41 +0000
Subject: [PATCH 37/76] fix: an explicitly given target density is not replaced
 by that of the material

---
 cratermaker/components/scaling/montecarlo.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/scaling/montecarlo.py b/cratermaker/components/scaling/montecarlo.py
index e31b463..d298b81 100644
--- a/cratermaker/components/scaling/montecarlo.py
+++ b/cratermaker/components/scaling/montecarlo.py
@@ -107,6 +107,9 @@ class MonteCarloScaling(Scaling):
         object.__setattr__(self, "_material_catalogue", None)
         object.__setattr__(self, "_montecarlo_scaling", monte_carlo_scaling)
 
+        if density is None and "density" in self.target._user_defined:
+            density = self.target.density  # A density that was given explicitly wins over that of the material
+
         if material is None:
             self.material = self.target.material
         else:
@@ -123,8 +126,6 @@ class MonteCarloScaling(Scaling):
         )
         if density is not None:
             self.target.density = density
-        elif self.target.density is None:
-            self.target.density = self.material_catalogue[self.material]["density"]
         if self.projectile.density is None:
             self.projectile.density = self.target.density
 
@@ -570,6 +571,7 @@ class MonteCarloScaling(Scaling):
             self.mu = self.material_catalogue[self._material]["mu"]
             self.Ybar = self.material_catalogue[self._material]["Ybar"]
             self.target.density = self.material_catalogue[self._material]["density"]
+            self.target._user_defined.discard("density")  # It follows the material until it is given explicitly
 
     @parameter
     def monte_carlo_scaling(self):
-- 
2.43.0


From 0109e0ca2618bbbac0031bd356b87664201a0b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:41 +0000
Subject: [PATCH 38/76] fix: monte_carlo_scaling given at creation is kept in
 the saved configuration

---
 cratermaker/components/scaling/montecarlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/scaling/montecarlo.py b/cratermaker/components/scaling/montecarlo.py
index d298b81..d40ed6b 100644
--- a/cratermaker/components/scaling/montecarlo.py
+++ b/cratermaker/components/scaling/montecarlo.py
@@ -105,7 +105,7 @@ class MonteCarloScaling(Scaling):
         object.__setattr__(self, "_simple_enlargement_factor", None)
         object.__setattr__(self, "_final_exp", None)
         object.__setattr__(self, "_material_catalogue", None)
-        object.__setattr__(self, "_montecarlo_scaling", monte_carlo_scaling)
+        self.monte_carlo_scaling = monte_carlo_scaling
 
         if density is None and "density" in self.target._user_defined:
             density = self.target.density  # A density that was given explicitly wins over that of the material
-- 
2.43.0


From 9ad64772ac58b43361a3f6df720a3f155a222b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:28 +0000
Subject: [PATCH 39/76] fix: asteroid and comet populations without sampling
 use their documented default angle, direction and location

---
 cratermaker/components/projectile/asteroids.py | 4 ++++
 cratermaker/components/projectile/comets.py    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/cratermaker/components/projectile/asteroids.py b/cratermaker/components/projectile/asteroids.py
index 9e812cd..d26195c 100644
--- a/cratermaker/components/projectile/asteroids.py
+++ b/cratermaker/components/projectile/asteroids.py
@@ -61,6 +61,10 @@ class AsteroidProjectiles(Projectile):
             |kwargs|
         """
         density = 2250.0 if density is None else density
+        if not sample:
+            angle = 90.0 if angle is None else angle
+            direction = 0.0 if direction is None else direction
+            location = (0.0, 0.0) if location is None else location
         kwargs.pop("mean_velocity", None)
         kwargs.pop("velocity", None)
         self._target = Target.maker(target, **kwargs)
diff --git a/cratermaker/components/projectile/comets.py b/cratermaker/components/projectile/comets.py
index 7354ff5..3f21b01 100644
--- a/cratermaker/components/projectile/comets.py
+++ b/cratermaker/components/projectile/comets.py
@@ -119,6 +119,10 @@ class CometProjectiles(Projectile):
             |kwargs|
         """
         density = 500.0 if density is None else density
+        if not sample:
+            angle = 90.0 if angle is None else angle
+            direction = 0.0 if direction is None else direction
+            location = (0.0, 0.0) if location is None else location
         kwargs.pop("mean_velocity", None)
         kwargs.pop("velocity", None)
         self._target = Target.maker(target, **kwargs)
-- 
2.43.0


From 1334d88e2d7f848cee6430b6a7d2bc2cbf213894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:12 +0000
Subject: [PATCH 40/76] fix: projectile settings are kept in the saved
 configuration (a simulation of a body outside the catalogues could not be
 reopened)

---
 cratermaker/components/projectile/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cratermaker/components/projectile/__init__.py b/cratermaker/components/projectile/__init__.py
index af2f817..0e3a276 100644
--- a/cratermaker/components/projectile/__init__.py
+++ b/cratermaker/components/projectile/__init__.py
@@ -266,7 +266,7 @@ class Projectile(ComponentBase):
             **kwargs,
         )
         if isfresh:
-            return projectile.new_projectile(
+            new_projectile = projectile.new_projectile(
                 velocity=velocity,
                 angle=angle,
                 direction=direction,
@@ -274,6 +274,14 @@ class Projectile(ComponentBase):
                 density=density,
                 **kwargs,
             )
+            # The settings that define the projectile population are stored in the configuration
+            new_projectile._user_defined.update(projectile._user_defined)
+            new_projectile._user_defined.update(["sample", "density"])
+            if mean_velocity is not None:
+                new_projectile._user_defined.add("mean_velocity")
+            if not sample:
+                new_projectile._user_defined.update(["velocity", "angle", "direction", "location"])
+            return new_projectile
         else:
             return projectile
 
-- 
2.43.0


From 8d4191854ff16af7e79e7a2dec96a2872c9d3dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:46 +0000
Subject: [PATCH 41/76] fix: settings saved for one component or material are
 not applied to a different one requested explicitly

---
 cratermaker/core/simulation.py | 37 ++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 13484f1..ea5eec7 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -130,10 +130,27 @@ class Simulation(CratermakerBase):
         else:
             config_file = None
 
+        saved_config = {}
+        if config_file is not None:
+            with Path.open(config_file) as f:
+                saved_config = yaml.safe_load(f) or {}
+        component_args = {
+            "target": target,
+            "scaling": scaling,
+            "production": production,
+            "morphology": morphology,
+            "projectile": projectile,
+            "surface": surface,
+            "counting": counting,
+        }
         config_override = {}
         for component in _COMPONENT_NAMES:
-            # Set to true if a local variable from the argument list with the component name is set to something other than None, otherwise false
-            config_override[component] = getattr(self, f"_{component}") is not None
+            # Set to true if a component other than the one in the configuration file was passed, otherwise false
+            arg = component_args[component]
+            saved = saved_config.get(component, None)
+            config_override[component] = arg is not None and (
+                not isinstance(arg, str) or saved is None or arg.lower() != str(saved).lower()
+            )
 
         _, unmatched = _set_properties(
             self,
@@ -160,6 +177,13 @@ class Simulation(CratermakerBase):
         target_config = unmatched.pop("target_config", {})
         projectile_config = unmatched.pop("projectile_config", {})
         counting_config = unmatched.pop("counting_config", {})
+        saved_material = scaling_config.get("material", None)
+        new_material = kwargs.get("material", None)
+        if config_override["target"] or (new_material is not None and new_material.title() != str(saved_material).title()):
+            # The saved strength and density belong to a different material
+            target_config.pop("density", None)
+            for name in ("material", "K1", "mu", "Ybar"):
+                scaling_config.pop(name, None)
         kwargs.update(unmatched)
         kwargs = {**kwargs, **vars(self.common_args)}
 
@@ -245,9 +269,7 @@ class Simulation(CratermakerBase):
         # The size limits can only be applied now that the components exist. Explicit values win over those of the previous run
         limits = [f"smallest_{self.production.generator_type}", f"largest_{self.production.generator_type}"]
         new_production = isinstance(production, Production) or "quasimc_file" in kwargs or "quasimc_craters" in kwargs
-        if config_file is not None and not self.is_new and not new_production:
-            with Path.open(config_file) as f:
-                saved_config = yaml.safe_load(f) or {}
+        if not self.is_new and not new_production:
             if all(saved_config.get(name, None) is not None for name in limits):
                 self.production.diameter_range = [saved_config[name] for name in limits]
         self._user_defined.update(limits)
@@ -256,9 +278,8 @@ class Simulation(CratermakerBase):
                 setattr(self, name, kwargs[name])
 
         # Continue with the random number generator of the previous run unless a different one was requested. This is done last because initializing the components may draw from the generator.
-        if config_file is not None and not self.is_new and rng is None and rng_seed is None and rng_state is None:
-            with Path.open(config_file) as f:
-                saved_state = (yaml.safe_load(f) or {}).get("rng_state", None)
+        if not self.is_new and rng is None and rng_seed is None and rng_state is None:
+            saved_state = saved_config.get("rng_state", None)
             if saved_state is not None and saved_state.get("bit_generator") == self.rng_state["bit_generator"]:
                 self.rng_state = saved_state
 
-- 
2.43.0


From 7e614b82f0ac97fdd6140fd2e982a99463882591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:12 +0000
Subject: [PATCH 42/76] fix: do_counting=False survives reopening a simulation

---
 cratermaker/core/simulation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index ea5eec7..3e0aed3 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -83,7 +83,7 @@ class Simulation(CratermakerBase):
         rng_state: dict | None = None,
         reset: bool = None,
         ask_overwrite: bool = True,
-        do_counting: bool = True,
+        do_counting: bool | None = None,
         save_actions: list[dict[str, dict]] | None | str = "default",
         **kwargs: Any,
     ):
@@ -230,6 +230,8 @@ class Simulation(CratermakerBase):
             **counting_config,
         )
 
+        if do_counting is None:
+            do_counting = morphology_config.get("do_counting", True)
         morphology_config = {**morphology_config, **kwargs, "do_counting": do_counting}
         self.morphology = Morphology.maker(
             self.morphology,
-- 
2.43.0


From 17c15e779ce34a114b0a93933b8024f57b327db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:12 +0000
Subject: [PATCH 43/76] fix: listing the attributes of a crater failed

---
 cratermaker/components/crater/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index acf6c40..00cbb5f 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -509,8 +509,8 @@ class Crater(ComponentBase):
         Expose delegated attributes for autocomplete/introspection.
         """
         base = set(super().__dir__())
-        base.update(dir(self.fixed))
-        base.update(dir(self.var))
+        base.update(dir(self._fixed))
+        base.update(dir(self._var))
         return sorted(base)
 
     def __str__(self):
-- 
2.43.0


From e41fc4ed564d1b12247117de62f8e3b5c9d937c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:10 +0000
Subject: [PATCH 44/76] fix: sampling without a diameter range uses that of the
 production function instead of failing

---
 cratermaker/components/production/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index 3aeb40f..db8285d 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -666,7 +666,9 @@ class Production(ComponentBase):
             )
         diameter_number = kwargs.get("diameter_number")
         diameter_number_end = kwargs.get("diameter_number_end")
-        diameter_range = kwargs.pop("diameter_range", self.diameter_range)
+        diameter_range = kwargs.pop("diameter_range", None)
+        if diameter_range is None:
+            diameter_range = self.diameter_range
         area = kwargs.get("area")
         compute_time = kwargs.get("compute_time", True)
 
-- 
2.43.0


From b248e434d58825870a98682299264954cf848f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:10 +0000
Subject: [PATCH 45/76] fix: contradictory requests (an age with a start time,
 times with an end number) were silently accepted

---
 cratermaker/components/production/__init__.py | 2 ++
 cratermaker/core/simulation.py                | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index db8285d..8669843 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -646,6 +646,8 @@ class Production(ComponentBase):
         _REF_DIAM = 1000.0  # The diameter value used if age arguments are provided
         age = kwargs.pop("age", None)
         if age is not None:
+            if kwargs.get("time_start") is not None:
+                raise ValueError("Cannot provide both age and time_start")
             kwargs["time_start"] = age
         time_start = kwargs.get("time_start")
         time_end = kwargs.get("time_end")
diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 3e0aed3..5fdd73c 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -396,6 +396,8 @@ class Simulation(CratermakerBase):
                 raise ValueError("Cannot specify both age and diameter_number")
             if N_D is not None:
                 raise ValueError("Cannot specify both age and N_D")
+            if N_D_end is not None:
+                raise ValueError("Cannot specify both age and N_D_end")
             if not np.isscalar(age):
                 raise ValueError("age must be a scalar value")
             # as age is just a convenience variable, we replace it with time_start = age and time_end = 0
@@ -409,6 +411,8 @@ class Simulation(CratermakerBase):
                 raise ValueError("Cannot specify both time_start and diameter_number")
             if N_D is not None:
                 raise ValueError("Cannot specify both time_start and N_D")
+            if N_D_end is not None:
+                raise ValueError("Cannot specify both time_start and N_D_end")
             if not np.isscalar(time_start):
                 raise ValueError("time_start must be a scalar value")
             if not np.isscalar(time_end):
@@ -416,7 +420,7 @@ class Simulation(CratermakerBase):
         elif time_end is not None:
             if self._time is None:
                 raise ValueError("time_end cannot be used without time_start")
-            if N_D is not None or diameter_number is not None:
+            if N_D is not None or diameter_number is not None or N_D_end is not None:
                 raise ValueError("Cannot specify both time_end and N_D or diameter_number")
             time_start = self.time
         elif N_D is not None:
-- 
2.43.0


From 97ba85581f676dca7d52680d0bf2c0a1888980cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:47 +0000
Subject: [PATCH 46/76] fix: an N(D) constraint of a sample has to be a pair

---
 cratermaker/components/production/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index 8669843..17da958 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -656,6 +656,8 @@ class Production(ComponentBase):
         if N_D is not None:
             if time_start is not None:
                 raise ValueError("Cannot provide both N_D and time_start")
+            if len(N_D) != 2:
+                raise ValueError("The 'N_D' must be a pair of values in the form (D, N)")
             time_start = self.age_from_D_N(
                 diameter=N_D[0] * self.D_conversion_factor, cumulative_number_density=N_D[1] / self.N_conversion_factor
             )
@@ -663,6 +665,8 @@ class Production(ComponentBase):
         if N_D_end is not None:
             if time_end is not None:
                 raise ValueError("Cannot provide both N_D_end and time_end")
+            if len(N_D_end) != 2:
+                raise ValueError("The 'N_D_end' must be a pair of values in the form (D, N)")
             time_end = self.age_from_D_N(
                 diameter=N_D_end[0] * self.D_conversion_factor, cumulative_number_density=N_D_end[1] / self.N_conversion_factor
             )
-- 
2.43.0


From b153d83507b0b5d46a8d38a6a865d1c8a5c37ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:50 +0000
Subject: [PATCH 47/76] fix: a run after craters were emplaced saves its
 starting state

---
 cratermaker/core/simulation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 5fdd73c..10cebe1 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -600,7 +600,8 @@ class Simulation(CratermakerBase):
             time_interval = time_start - time_end
 
         # If this is a fresh run, we need to set the value of the current time based on the requested starting condition.
-        if self._time is None:
+        is_fresh = self._time is None
+        if is_fresh:
             self.time = time_start
             self.interval = 0
 
@@ -629,7 +630,7 @@ class Simulation(CratermakerBase):
             )
             initial_interval = int(delta_n1_start / n1_interval + _INTERVAL_TOL)
 
-        if self.is_new:
+        if self.is_new or is_fresh:
             self.save(**kwargs)
 
         with tqdm(
-- 
2.43.0


From 81603d6418f1d31fc853c8b81409b261b55a6b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:40 +0000
Subject: [PATCH 48/76] fix: saving a region overwrote the saved state of the
 whole surface, negative interval numbers gave no time variables, and reading
 an interval that was never saved through a region failed

---
 cratermaker/components/surface/__init__.py | 4 ++++
 cratermaker/core/base.py                   | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 0311bdb..704a7f3 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -3285,6 +3285,8 @@ class LocalSurface(CratermakerBase):
             for k, v in time_variables.items():
                 ds[k] = xr.DataArray(data=[v], name=k, dims=["interval"], coords={"interval": [interval]})
 
+        if filename is None and self.is_local:  # The data of a region must not end up in the files of the whole surface
+            filename = self.output_filename(interval)
         self.surface._save_data(
             ds,
             interval=interval,
@@ -4351,6 +4353,8 @@ class LocalSurface(CratermakerBase):
         if self.is_local:
             uxds_global = self.surface.read_saved_output(interval=interval, **kwargs)
             if not reset:
+                if len(uxds_global.variables) == 0:  # This interval has not been saved
+                    return uxr.UxDataset(uxgrid=self.uxgrid)
                 return uxr.UxDataset(uxds_global.sel(n_face=self.face_indices, n_node=self.node_indices), uxgrid=self.uxgrid)
             else:
                 return uxr.UxDataset(uxgrid=self.uxgrid)
diff --git a/cratermaker/core/base.py b/cratermaker/core/base.py
index a2dfe15..dd7f905 100644
--- a/cratermaker/core/base.py
+++ b/cratermaker/core/base.py
@@ -272,7 +272,7 @@ class CratermakerBase:
             if len(data_file_list) == 0:
                 output_ds.append(None)
                 continue
-            data_file_list = sorted(data_file_list)
+            data_file_list = sorted(data_file_list, key=lambda f: (len(f.name), f.name))  # In the same order as interval_numbers
 
             # map the requested interval to the index of interval_numbers
             if interval is not None and len(interval_numbers) > 0:
@@ -342,7 +342,7 @@ class CratermakerBase:
             if len(time_vars) == 0:
                 return xr.DataArray()
             tds = ds[time_vars]
-            if interval is not None:
+            if interval is not None and interval >= 0:
                 if interval in tds.interval:
                     tds = tds.sel(interval=[interval])
                 else:
-- 
2.43.0


From d86e086fabee41d525062d271fc6ff30ec3a8464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:40 +0000
Subject: [PATCH 49/76] fix: a saved crater size limit was ignored when only
 one of the two was stored

---
 cratermaker/core/simulation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 10cebe1..5776f64 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -272,8 +272,11 @@ class Simulation(CratermakerBase):
         limits = [f"smallest_{self.production.generator_type}", f"largest_{self.production.generator_type}"]
         new_production = isinstance(production, Production) or "quasimc_file" in kwargs or "quasimc_craters" in kwargs
         if not self.is_new and not new_production:
-            if all(saved_config.get(name, None) is not None for name in limits):
-                self.production.diameter_range = [saved_config[name] for name in limits]
+            saved_limits = [saved_config.get(name, None) for name in limits]
+            if any(v is not None for v in saved_limits):
+                self.production.diameter_range = [
+                    v if v is not None else d for v, d in zip(saved_limits, self.production.diameter_range, strict=True)
+                ]
         self._user_defined.update(limits)
         for name in ("largest_crater", "largest_projectile", "smallest_crater", "smallest_projectile"):
             if kwargs.get(name, None) is not None:
-- 
2.43.0


From 3dccf32892fe2f2e0b489639f06d06ce0284ea02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:16 +0000
Subject: [PATCH 50/76] fix: declining a reset still overwrote the first saved
 state, and changing the mesh or writing a GeoTIFF discarded existing files
 without asking

---
 cratermaker/components/counting/__init__.py  | 3 +--
 cratermaker/components/surface/__init__.py   | 8 ++++++--
 cratermaker/components/surface/hireslocal.py | 4 ++--
 cratermaker/core/base.py                     | 3 +--
 4 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index 327d3b9..ad804da 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -159,11 +159,10 @@ class Counting(ComponentBase):
         **kwargs : Any
             |kwargs|
         """
+        super().reset(**kwargs)
         self.surface.add_tag(name="crater_id", long_name=_TALLY_LONG_NAME, tag=None, n_layer=self.n_layer)
         self._emplaced = []
         self._observed = {}
-
-        super().reset(**kwargs)
         return
 
     def add(self, crater: MorphologyCrater, **kwargs: Any) -> MorphologyCrater:
diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 704a7f3..e22fae1 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -1219,6 +1219,10 @@ class Surface(ComponentBase):
             regrid = not self._is_same_grid
 
         if regrid:
+            # Results that were saved on a different mesh cannot be kept
+            old_files = self.saved_output_files()
+            if old_files and not self._overwrite_check(old_files):
+                raise RuntimeError("User aborted the creation of a new grid.")
             print("Creating a new grid")
             self._generate_grid(**kwargs)
 
@@ -3197,6 +3201,8 @@ class LocalSurface(CratermakerBase):
         from cartopy import crs as ccrs
 
         def _write_dataset(uxda, output_filename, **kwargs):
+            if not self._overwrite_check(output_filename):
+                return
             if self.is_global:
                 projection = ccrs.PlateCarree()
             else:
@@ -4361,8 +4367,6 @@ class LocalSurface(CratermakerBase):
 
         if reset:
             interval = 0
-            filename = self.output_dir / self.output_filename(interval)
-            filename.unlink(missing_ok=True)
         files = super().read_saved_output(interval=interval, **kwargs)
         if isinstance(files, tuple):
             ds, grid = files
diff --git a/cratermaker/components/surface/hireslocal.py b/cratermaker/components/surface/hireslocal.py
index d49a930..6ffa433 100644
--- a/cratermaker/components/surface/hireslocal.py
+++ b/cratermaker/components/surface/hireslocal.py
@@ -668,10 +668,10 @@ class HiResLocalSurface(Surface):
                 self._set_local_identifiers()
         else:
             _ = self.local  # triggers extraction of local surface and saving of local grid indices file
-            self.ask_overwrite = False
         if reset:
+            self.ask_overwrite = False  # The earlier results were already dealt with by the reset above
             self.reset(reset=reset, **kwargs)
-            self.ask_overwrite = ask_overwrite  # Restore the original value of ask_overwrite after the reset
+        self.ask_overwrite = ask_overwrite  # Restore the original value of ask_overwrite after the reset
         return
 
     def compute_location_from_distance_bearing(
diff --git a/cratermaker/core/base.py b/cratermaker/core/base.py
index dd7f905..1ef68af 100644
--- a/cratermaker/core/base.py
+++ b/cratermaker/core/base.py
@@ -109,8 +109,7 @@ class CratermakerBase:
         if files_to_remove is None:
             files_to_remove = self.saved_output_files()
         if files_to_remove and not self._overwrite_check(files_to_remove):
-            print("Reset operation cancelled by user.")
-            return
+            raise RuntimeError("User aborted the reset operation.")
 
     def to_config(self, remove_common_args: bool = False, **kwargs: Any) -> dict[str, Any]:
         """
-- 
2.43.0


From 8628aceef044087e2b1cb39541a4b5e342eaf8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:16 +0000
Subject: [PATCH 51/76] fix: exporting an earlier interval of the surface
 overwrote its saved state with the current one

---
 cratermaker/components/surface/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index e22fae1..0a6ab1a 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -2797,8 +2797,10 @@ class LocalSurface(CratermakerBase):
         if ask_overwrite is not None:
             self.ask_overwrite = ask_overwrite
 
-        if interval is not None:
-            self.surface.save(interval=interval, **kwargs, skip_actions=True)
+        if interval is not None and interval >= 0:
+            # An interval that was already saved is exported as it was saved
+            if not (self.surface.output_dir / self.surface.output_filename(interval)).exists():
+                self.surface.save(interval=interval, **kwargs, skip_actions=True)
         if driver.upper() in ["VTK", "VTP"]:
             self.to_vtk_file(
                 interval=interval,
-- 
2.43.0


From 8721cfec14ac28a2a00bd41fd9ae0e8b4b240d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:03 +0000
Subject: [PATCH 52/76] fix: exporting a saved state of a high-resolution local
 mesh to VTK failed on its boolean fields

---
 cratermaker/components/surface/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 0a6ab1a..21c23e9 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -2988,7 +2988,10 @@ class LocalSurface(CratermakerBase):
         grid.DeepCopy(vtk_data)
 
         for v in uxds.variables:
-            array = numpy_to_vtk(uxds[v].values, deep=True)
+            values = uxds[v].values
+            if values.dtype == bool:  # VTK has no boolean arrays
+                values = values.astype(np.uint8)
+            array = numpy_to_vtk(values, deep=True)
             array.SetName(v)
             if "n_face" in uxds[v].dims:
                 grid.GetCellData().AddArray(array)
-- 
2.43.0


From 9898b2561f3f04d375eb629e005bd536b78b3b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:32 +0000
Subject: [PATCH 53/76] fix: reading back a list failed or lost craters when
 craters had different attributes, occurred twice or came from CSV with
 identities, and SCC files of a whole sphere could not be read

---
 cratermaker/components/crater/__init__.py | 26 ++++++++++++++---------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index 00cbb5f..7e66400 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -1163,7 +1163,8 @@ class Crater(ComponentBase):
         args["measured_semimajor_axis"] = float(measured_semimajor_axis) if measured_semimajor_axis is not None else None
         args["measured_semiminor_axis"] = float(measured_semiminor_axis) if measured_semiminor_axis is not None else None
         args["measured_orientation"] = float(measured_orientation) if measured_orientation is not None else None
-        args["id"] = _set_id(**args)
+        stored_id = kwargs.pop("id", None)  # Craters that are read from file keep their identity
+        args["id"] = np.uint32(stored_id) if stored_id is not None else _set_id(**args)
         args["name"] = str(name) if name is not None else None
         return cls(**args, **kwargs)
 
@@ -1354,7 +1355,7 @@ class Crater(ComponentBase):
         list[Crater]
             A list of Crater objects imported from the SCC file.
         """
-        from craterstats import Spatialcount
+        from craterstats import gm
 
         craters = []
         input_file = Path(input_file)
@@ -1362,9 +1363,12 @@ class Crater(ComponentBase):
             raise FileNotFoundError(f"Input file '{input_file}' does not exist.")
         if input_file.suffix != ".scc":
             raise ValueError(f"Input file '{input_file}' is not a .scc file.")
-        scc = Spatialcount(filename=str(input_file))
-        for diam, lon, lat in zip(scc.diam, scc.lon, scc.lat, strict=True):
-            crater = cls.maker(diameter=diam * 1e3, location=(lon, lat))
+        # Only the table of craters is needed. The boundary may be one that Craterstats cannot process, such as that of a whole sphere
+        table = gm.read_textstructure(
+            gm.read_textfile(str(input_file), ignore_hash=True, strip=";", as_string=True), from_string=True
+        )["crater"]
+        for diam, lon, lat in zip(table["diam"], table["lon"], table["lat"], strict=True):
+            crater = cls.maker(diameter=float(diam) * 1e3, location=(float(lon), float(lat)))
             craters.append(crater)
 
         return craters
@@ -1387,7 +1391,7 @@ class Crater(ComponentBase):
         craters = []
         if type(dataset) is dict:
             if interval is None:
-                dataset = dataset[-1]
+                dataset = dataset[max(dataset)]
             elif interval in dataset:
                 dataset = dataset[interval]
             else:
@@ -1402,15 +1406,17 @@ class Crater(ComponentBase):
         dataset.load()
         if len(dataset) == 0:
             return craters
-        for id in tqdm(dataset.id.data, desc="Converting xarray Dataset to Crater objects", unit="crater", position=0, leave=False):
-            crater_data = dataset.sel(id=id).to_dict()["data_vars"]
+        for i, id in enumerate(tqdm(dataset.id.data, desc="Converting xarray Dataset to Crater objects", unit="crater", position=0, leave=False)):
+            crater_data = dataset.isel(id=i).to_dict()["data_vars"]
             crater_data = {k: v["data"] for k, v in crater_data.items()}
-            if not isinstance(crater_data["semimajor_axis"], (float, int)):
-                continue
+            if not isinstance(crater_data["semimajor_axis"], (float, int)) or np.isnan(crater_data["semimajor_axis"]):
+                continue  # This crater is not in this interval
             crater_data = _convert_tuple_vars(input_dict=crater_data, inverse=True)
             for k, v in crater_data.items():
                 if v is not None and np.any(np.isreal(v)) and np.any(np.isnan(v)):
                     crater_data[k] = None
+            crater_data = {k: v for k, v in crater_data.items() if v is not None}
+            crater_data["id"] = id
             crater = cls.maker(**crater_data, check_redundant_inputs=False)
             craters.append(crater)
 
-- 
2.43.0


From 461930ddb6d0f9b394f9dc5f8ec714ad80c4e207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:32 +0000
Subject: [PATCH 54/76] fix: CSV files kept only the attributes of the first
 crater, and exporting all intervals failed or mixed the intervals of the two
 lists

---
 cratermaker/components/counting/__init__.py | 41 ++++++++++-----------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index ad804da..580aa26 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -561,35 +561,34 @@ class Counting(ComponentBase):
                     interval_numbers = [0]
                 else:
                     interval_numbers = [interval]
-            for interval in interval_numbers:
-                craters = self.Crater.from_xarray(crater_ds, interval=interval) if crater_ds is not None else []
+            for n in interval_numbers:
+                craters = self.Crater.from_xarray(crater_ds, interval=n) if crater_ds is not None else []
                 if driver.upper() in ["VTK", "VTP"] and crater_ds is not None:
                     self.to_vtk_file(
                         craters=craters,
-                        interval=interval,
+                        interval=n,
                         crater_type=crater_type,
                         **kwargs,
                     )
                 elif driver.upper() == "CSV" and crater_ds is not None:
                     self.to_csv_file(
                         craters=craters,
-                        interval=interval,
+                        interval=n,
                         crater_type=crater_type,
                         **kwargs,
                     )
                 elif driver.upper() == "SCC":
-                    if crater_ds is None:
-                        crater_ds = []  # Allow for empty SCC files because they can still have the region polygon
+                    # Allow for empty SCC files because they can still have the region polygon
                     self.to_scc_file(
                         craters=craters,
-                        interval=interval,
+                        interval=n,
                         crater_type=crater_type,
                         **kwargs,
                     )
                 elif driver.upper() in VECTOR_DRIVER_TO_EXTENSION_MAP and crater_ds is not None:
                     self.to_vector_file(
                         craters=craters,
-                        interval=interval,
+                        interval=n,
                         crater_type=crater_type,
                         driver=driver,
                         **kwargs,
@@ -978,13 +977,9 @@ class Counting(ComponentBase):
             raise ValueError("crater_type must be 'observed' or 'emplaced'")
         if craters is None:
             craters = getattr(self, crater_type)
-        if type(craters) is dict:
-            if type(list(craters.values())[0]) is xr.Dataset:  # like multi-interval dicts keyed by interval
-                crater_ds = craters.get(
-                    interval, []
-                )  # Get the dataset for the specified interval, or an empty dataset if not found
-            else:
-                return list(crater_ds.values())  # like observed dicts keyed by crater id
+        if type(craters) is dict and any(isinstance(c, xr.Dataset) for c in craters.values()):
+            # like multi-interval dicts keyed by interval
+            craters = craters.get(interval, [])  # Get the dataset for the specified interval, or an empty list if not found
 
         if isinstance(craters, dict):
             craters = list(craters.values())
@@ -1380,7 +1375,7 @@ class Counting(ComponentBase):
         print(f"Saving crater data to CSV file: '{output_file}'...")
         with output_file.open(mode="w", newline="") as csvfile:
             writer = csv.writer(csvfile)
-            header_written = False
+            rows = []
             for crater in craters:
                 crater_dict = crater.as_dict(skip_complex_data=True)
                 crater_dict = _convert_tuple_vars(input_dict=crater_dict, inverse=False)
@@ -1409,12 +1404,14 @@ class Counting(ComponentBase):
                     if v is None:
                         crater_dict[k] = ""
 
-                if not header_written:
-                    header = list(crater_dict.keys())
-                    writer.writerow(header)
-                    header_written = True
-                row = [crater_dict.get(key, "") for key in header]
-                writer.writerow(row)
+                rows.append(crater_dict)
+
+            # Not all craters have the same attributes
+            header = list(dict.fromkeys(key for row in rows for key in row))
+            if header:
+                writer.writerow(header)
+            for row in rows:
+                writer.writerow([row.get(key, "") for key in header])
 
         return
 
-- 
2.43.0


From 46511f5891937d624a730a4c5d006b4db232e89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:33 +0000
Subject: [PATCH 55/76] fix: a crater name that looks like a number was changed
 when read from CSV

---
 cratermaker/components/crater/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index 7e66400..056ace2 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -1318,6 +1318,8 @@ class Crater(ComponentBase):
                 for key, value in crater_data.items():
                     if key in ["id", "production_sequence"]:
                         crater_data[key] = int(value)
+                    elif key in ["name", "morphology_type"]:
+                        continue  # These stay text also when they look like a number
                     elif isinstance(value, tuple | list):
                         vnew = []
                         for v in value:
-- 
2.43.0


From 05c913962d6c4e010e38876cc03a6102dd27c344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:01 +0000
Subject: [PATCH 56/76] fix: answering 'a' to the reset of a simulation did not
 suppress the questions of its components

---
 cratermaker/core/simulation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 5776f64..2988ec1 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -1397,7 +1397,12 @@ class Simulation(CratermakerBase):
                     raise RuntimeError("User aborted the reset operation.")
         for component in _COMPONENT_NAMES:
             if component not in skip_component and hasattr(self, component):
-                getattr(self, component).reset()
+                component_obj = getattr(self, component)
+                component_ask_overwrite = component_obj.ask_overwrite
+                if not self.ask_overwrite:  # Either set by the user or answered with 'a' above
+                    component_obj.ask_overwrite = False
+                component_obj.reset()
+                component_obj.ask_overwrite = component_ask_overwrite
         self.ask_overwrite = ask_overwrite_original
 
         self._interval = 0
-- 
2.43.0


From 528b7fab5808c6dffcb9ad882cbb3e929dc89415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:01 +0000
Subject: [PATCH 57/76] fix: declining the reset of an earlier run left its
 configuration file overwritten

---
 cratermaker/core/simulation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 2988ec1..69035ce 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -122,11 +122,11 @@ class Simulation(CratermakerBase):
             else:
                 reset = False
         self.is_new = reset
-        object.__setattr__(self, "_config_readonly", not reset)
+        # Nothing is written to the configuration file until it is certain that an earlier run may be replaced
+        object.__setattr__(self, "_config_readonly", True)
 
         if not self.is_new and self.config_file.exists():
             config_file = self.config_file
-            object.__setattr__(self, "_config_readonly", True)
         else:
             config_file = None
 
@@ -289,10 +289,10 @@ class Simulation(CratermakerBase):
                 self.rng_state = saved_state
 
         if self.is_new:
-            object.__setattr__(self, "_config_readonly", False)
             # The Surface has already had its reset method called.
             skip_components = ["surface"]
             self.reset(skip_component=skip_components)
+            object.__setattr__(self, "_config_readonly", False)
 
         self.save_actions = save_actions
 
-- 
2.43.0


From 986aa9189a7b78ab0099b50aca2eca8b44799d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:12 +0000
Subject: [PATCH 58/76] fix: files agreed to when a simulation is reset were
 asked about again by its components

---
 cratermaker/core/simulation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 69035ce..94b7db3 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -1391,10 +1391,9 @@ class Simulation(CratermakerBase):
                     print(f"  {f}")
                 print("To disable this message, set `ask_overwrite=False` to this instance.")
                 response = input(f"Are you sure you want to delete {len(files_to_remove)} files? [y/N/a]: ")
-                if response.lower() == "a":
-                    self.ask_overwrite = False
-                elif response.lower() != "y":
+                if response.lower() not in ("y", "a"):
                     raise RuntimeError("User aborted the reset operation.")
+                self.ask_overwrite = False  # All of the files were agreed to, so the components do not have to ask again
         for component in _COMPONENT_NAMES:
             if component not in skip_component and hasattr(self, component):
                 component_obj = getattr(self, component)
-- 
2.43.0


From b0211eab690ff34509dbd026e2300282c532dd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:00 +0000
Subject: [PATCH 59/76] fix: find the diameters of arrays of numbers and times

---
 cratermaker/components/production/__init__.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index 17da958..88b8815 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -486,13 +486,14 @@ class Production(ComponentBase):
         xlo = 1e-6
         xhi = 1e6
         retval = []
-        narr = np.array(cumulative_number_density)
+        tend = 0.0 if time_end is None else time_end
+        narr, tsarr, tearr = np.broadcast_arrays(cumulative_number_density, time_start, tend)
         converged = []
         flag = []
-        for _, n in np.ndenumerate(narr):
-            nval = float(n.item())
+        for n, ts, te in zip(narr.ravel(), tsarr.ravel(), tearr.ravel(), strict=True):
+            nval, tsval, teval = float(n), float(ts), float(te)
             sol = root_scalar(
-                lambda d, n=nval, time_start=time_start, time_end=time_end: _root_func(d, n, time_start, time_end),
+                lambda d, n=nval, time_start=tsval, time_end=teval: _root_func(d, n, time_start, time_end),
                 x0=x0,
                 xtol=xtol,
                 method="brentq",
@@ -505,7 +506,7 @@ class Production(ComponentBase):
         converged = np.array(converged)
         flag = np.array(flag)
         if np.all(converged):
-            return retval.item() if np.isscalar(cumulative_number_density) else retval
+            return retval.item() if np.isscalar(cumulative_number_density) and np.isscalar(time_start) else retval
         else:
             raise ValueError(
                 f"The root finding algorithm did not converge for all values of cumulative_number and age. Flag {flag}"
-- 
2.43.0


From 351ffade77d5c646a7d039bbb81098b841b7b8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:00 +0000
Subject: [PATCH 60/76] fix: refuse a single end time before the valid range as
 an array of them is

---
 cratermaker/components/production/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index 88b8815..473a488 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -815,7 +815,7 @@ class Production(ComponentBase):
                 raise TypeError("time_end must be a numeric value (float or int)")
             if time_start < time_end:
                 raise ValueError("time_start must be greater than the time_end")
-            if self.valid_time[0] is not None and time_start < self.valid_time[0]:
+            if self.valid_time[0] is not None and (time_start < self.valid_time[0] or time_end < self.valid_time[0]):
                 raise ValueError(
                     f"time_start must be greater than the minimum valid time {self.valid_time[0]} (it is units of My before present)"
                 )
-- 
2.43.0


From 3cd270ab697e87bac5018acb545745dc1c4035ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:00 +0000
Subject: [PATCH 61/76] fix: accept lists of diameters in csfd

---
 cratermaker/components/production/neukum.py   | 2 ++
 cratermaker/components/production/powerlaw.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/cratermaker/components/production/neukum.py b/cratermaker/components/production/neukum.py
index 4878006..f48d1d5 100644
--- a/cratermaker/components/production/neukum.py
+++ b/cratermaker/components/production/neukum.py
@@ -508,6 +508,8 @@ class NeukumProduction(Production):
 
             return _CSFD_scalar(Dkm) if np.isscalar(Dkm) else np.vectorize(_CSFD_scalar)(Dkm)
 
+        if not np.isscalar(diameter):
+            diameter = np.asarray(diameter, dtype=np.float64)
         if np.any(diameter < 0.0):
             raise ValueError("diameter must be greater than or equal to 0.0")
 
diff --git a/cratermaker/components/production/powerlaw.py b/cratermaker/components/production/powerlaw.py
index 912a929..7ba7daf 100644
--- a/cratermaker/components/production/powerlaw.py
+++ b/cratermaker/components/production/powerlaw.py
@@ -191,6 +191,8 @@ class PowerLawProduction(Production):
         FloatLike or numpy array
            Cumulative number density of per square meter greater than the input diameter.
         """
+        if not np.isscalar(diameter):
+            diameter = np.asarray(diameter, dtype=np.float64)
         return self.N1_coef * diameter**self.slope
 
     @parameter
-- 
2.43.0


From aee2d353e68c93ad26e99d3f93c18edcfac8b60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:27 +0000
Subject: [PATCH 62/76] fix: keep the times drawn for scheduled craters in the
 valid range

---
 cratermaker/components/production/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index 473a488..a812f1f 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -957,6 +957,10 @@ class Production(ComponentBase):
             The list of processed Crater objects with their emplacement time set, and any craters without production metadata dropped.
         """
 
+        # The latest valid time and its N(1) value bound every draw
+        tmax = self.valid_time[1] if self.valid_time[1] is not None else np.inf
+        nmax = float(self.function(diameter=_DSTD, time_start=tmax)) if np.isfinite(tmax) else np.inf
+
         def _draw_quasimc_time(
             crater: Crater,
             sequence_extents: dict[int, float] | None = None,
@@ -1009,7 +1013,7 @@ class Production(ComponentBase):
                     else:
                         nval = max(min(nmean, seq_nhi), seq_nlo)
                 else:
-                    nval = self.rng.normal(loc=nmean, scale=nsig) if nsig > 0 else nmean
+                    nval = min(self.rng.normal(loc=nmean, scale=nsig), max(nmean, nmax)) if nsig > 0 else nmean
                 nval = max(0.0, nval)
                 return float(self.age_from_D_N(diameter=_DSTD, cumulative_number_density=nval))
             elif crater.production_time is not None and crater.production_time != [None, None]:
@@ -1023,8 +1027,7 @@ class Production(ComponentBase):
                     t = self.rng.normal(loc=tmean, scale=tsig) if tsig > 0 else tmean
                 if isinstance(t, np.ndarray):
                     t = t.item()
-                max(t, 0.0)
-                return float(t)
+                return float(min(max(t, 0.0), tmax))
             else:
                 return None
 
-- 
2.43.0


From 1ce98285a0382c3eb69862b57d3832a91692a6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:27 +0000
Subject: [PATCH 63/76] fix: bound sequence extents by the valid range

---
 cratermaker/components/production/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index a812f1f..ff349cd 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -1090,13 +1090,18 @@ class Production(ComponentBase):
                         fac = self.csfd(_DSTD) / self.csfd(prod_diam)
                         nmean *= fac
                         nstdev *= fac
+                        # An uncertainty does not reach beyond the valid range
+                        if nmean + nstdev > nmax >= nmean:
+                            nlo = max(nmean - nstdev, 0.0)
+                            nmean, nstdev = (nmax + nlo) / 2, (nmax - nlo) / 2
                         n.append(nmean)
                         sig.append(nstdev)
                     elif crater.production_time is not None and crater.production_time != [None, None]:
                         # Time doesn't map linearly with N(1), but to keep things consistent here for computing sequence boundaries we will convert the upper/lower 1 sigma bounds of production_time into upper/lower 1 sigma bounds on N(1). Later, craters with production_time+/-production_time_stdev values will be drawn using time-based values
                         tmean, tstdev = crater.production_time
                         tlo = max(tmean - tstdev, 0.0)
-                        thi = tmean + tstdev
+                        thi = min(tmean + tstdev, tmax)
+                        tlo = min(tlo, thi)
                         nlo = self.function(diameter=_DSTD, time_start=tlo)
                         nhi = self.function(diameter=_DSTD, time_start=thi)
                         nmean = (nhi + nlo) / 2
-- 
2.43.0


From cd6371c1f63340daa094251ed3f3ca8726048015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:27 +0000
Subject: [PATCH 64/76] fix: allow sequences that reach only the present

---
 cratermaker/components/production/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index ff349cd..a02f94a 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -972,13 +972,13 @@ class Production(ComponentBase):
                 seq_nlo = max(seq_nlo, 0.0)
                 seq_nmean = (seq_nlo + seq_nhi) / 2
                 seq_nsig = (seq_nhi - seq_nlo) / 2
-                if seq_nsig / seq_nmean < 1e-12:  # Prevents an error when the bounds are too tight
+                if seq_nsig <= 1e-12 * seq_nmean:  # Prevents an error when the bounds are too tight
                     seq_nsig = 0.0
                 seq_tlo = self.age_from_D_N(diameter=_DSTD, cumulative_number_density=seq_nlo)
                 seq_thi = self.age_from_D_N(diameter=_DSTD, cumulative_number_density=seq_nhi)
                 seq_tmean = (seq_tlo + seq_thi) / 2
                 seq_tsig = (seq_thi - seq_tlo) / 2
-                if seq_tsig / seq_tmean < 1e-12:  # Prevents an error when the bounds are too tight
+                if seq_tsig <= 1e-12 * seq_tmean:  # Prevents an error when the bounds are too tight
                     seq_tsig = 0.0
             else:
                 s = None
-- 
2.43.0


From 0a510223a99218d51a18180c637624fb29ac7cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:27 +0000
Subject: [PATCH 65/76] fix: check the order of the last sequence too

---
 cratermaker/components/production/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index a02f94a..263d267 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -1040,7 +1040,7 @@ class Production(ComponentBase):
             """
             if any(t is None for t in times_by_idx.values()):
                 return False
-            ordered_sequence = sorted(sequence_groups.keys())[:-1]
+            ordered_sequence = sorted(sequence_groups.keys())
             for t_lo, t_hi in zip(ordered_sequence[:-1], ordered_sequence[1:], strict=True):
                 lo_min = min(
                     times_by_idx[i] for i in sequence_groups[t_lo]
-- 
2.43.0


From 3eae05ef8ebc9794193fd00457e58f1902d0d597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:27 +0000
Subject: [PATCH 66/76] fix: a sequence spans the ranges of all its craters

---
 cratermaker/components/production/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index 263d267..b7c320b 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -1109,10 +1109,11 @@ class Production(ComponentBase):
                         n.append(nmean)
                         sig.append(nstdev)
                 if len(n) > 0:
-                    sig = np.sqrt(np.sum([u**2 for u in sig])) / len(n)
-                    n = np.mean(n)
-                    nvals[s] = n
-                    nsigvals[s] = sig
+                    # The sequence spans the ranges of all its craters
+                    nlo = min(max(v - u, 0.0) for v, u in zip(n, sig, strict=True))
+                    nhi = max(v + u for v, u in zip(n, sig, strict=True))
+                    nvals[s] = (nhi + nlo) / 2
+                    nsigvals[s] = (nhi - nlo) / 2
                 else:
                     # Verify that the first entry has valid production metadata, otherwise we have no way to anchor the sequences to values of N(1)
                     if s == lowest_sequence_number:
-- 
2.43.0


From 025ade5a8a9ad300839ab90d45973d221487e251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:18 +0000
Subject: [PATCH 67/76] fix: keep random sizes within the tabulated range

---
 cratermaker/utils/montecarlo_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cratermaker/utils/montecarlo_utils.py b/cratermaker/utils/montecarlo_utils.py
index 1328314..6f41524 100644
--- a/cratermaker/utils/montecarlo_utils.py
+++ b/cratermaker/utils/montecarlo_utils.py
@@ -358,6 +358,8 @@ def get_random_size(
     # Add a small random noise to the diameters
     noise = 1e-8 * rng.uniform(size=new_diameters.shape)
     new_diameters *= 1 + noise
+    # Neither the noise nor rounding may push a diameter outside the tabulated range
+    new_diameters = np.clip(new_diameters, sorted_diameters[-1], sorted_diameters[0])
     return new_diameters
 
 
-- 
2.43.0


From 8eadd385f3c8c2139fa4cfc1ca0299ce087d5161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:01 +0000
Subject: [PATCH 68/76] fix: skip faces too large for any crater that may form

---
 cratermaker/core/simulation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 94b7db3..15f8353 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -773,6 +773,9 @@ class Simulation(CratermakerBase):
                 diam_min = max(smallest_projectile, diam_min)
             else:
                 diam_min = max(smallest_crater, diam_min)
+            if diam_min > diam_max:
+                # The faces of this bin are too large for any crater that may form
+                continue
 
             diameter_number_local = (diameter_number[0], diameter_number[1] * area_ratio) if diameter_number is not None else None
 
-- 
2.43.0


From 7dd74a1d74785aadcdca1e33a3f7a7595c0b12f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:00 +0000
Subject: [PATCH 69/76] fix: a new scaling model keeps the density, material
 and projectile settings it was given

---
 cratermaker/components/scaling/__init__.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cratermaker/components/scaling/__init__.py b/cratermaker/components/scaling/__init__.py
index 4ee2d82..256f39a 100644
--- a/cratermaker/components/scaling/__init__.py
+++ b/cratermaker/components/scaling/__init__.py
@@ -104,6 +104,7 @@ class Scaling(ComponentBase):
         """
         if scaling is None:
             scaling = "montecarlo"
+        existing = isinstance(scaling, Scaling)
         scaling = super().maker(
             component=scaling,
             target=target,
@@ -113,10 +114,11 @@ class Scaling(ComponentBase):
             rng_state=rng_state,
             **kwargs,
         )
-        if projectile is not None:
-            scaling.projectile = projectile
-        if target is not None:
-            scaling.target = target
+        if existing:  # A new one has already been given its target and projectile, along with all other arguments
+            if projectile is not None:
+                scaling.projectile = projectile
+            if target is not None:
+                scaling.target = target
 
         return scaling
 
-- 
2.43.0


From ebcd5c36ee8edcb9c5fdd4435141c5611cb8ae6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:00 +0000
Subject: [PATCH 70/76] fix: recompute the simple to complex transition when
 the target or the Monte Carlo mode changes

---
 cratermaker/components/scaling/__init__.py   | 3 +++
 cratermaker/components/scaling/montecarlo.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cratermaker/components/scaling/__init__.py b/cratermaker/components/scaling/__init__.py
index 256f39a..b3904ce 100644
--- a/cratermaker/components/scaling/__init__.py
+++ b/cratermaker/components/scaling/__init__.py
@@ -148,7 +148,10 @@ class Scaling(ComponentBase):
     def target(self, value):
         from cratermaker.components.target import Target
 
+        previous = self._target
         self._target = Target.maker(value, **vars(self.common_args))
+        if self._target is not previous:
+            self.recompute()  # The simple to complex transition depends on the target
         return
 
     @property
diff --git a/cratermaker/components/scaling/montecarlo.py b/cratermaker/components/scaling/montecarlo.py
index d40ed6b..93619e1 100644
--- a/cratermaker/components/scaling/montecarlo.py
+++ b/cratermaker/components/scaling/montecarlo.py
@@ -582,4 +582,7 @@ class MonteCarloScaling(Scaling):
     def monte_carlo_scaling(self, value):
         if not isinstance(value, bool):
             raise TypeError("monte_carlo_scaling must be a boolean")
+        changed = value is not getattr(self, "_montecarlo_scaling", value)
         self._montecarlo_scaling = value
+        if changed:
+            self.recompute()
-- 
2.43.0


From 184472be57cd17ab8f9cfbc40980fdbdd1ece588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:52 +0000
Subject: [PATCH 71/76] fix: a replaced projectile population has the
 velocities for the current target

---
 cratermaker/components/scaling/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cratermaker/components/scaling/__init__.py b/cratermaker/components/scaling/__init__.py
index b3904ce..3065e57 100644
--- a/cratermaker/components/scaling/__init__.py
+++ b/cratermaker/components/scaling/__init__.py
@@ -115,10 +115,10 @@ class Scaling(ComponentBase):
             **kwargs,
         )
         if existing:  # A new one has already been given its target and projectile, along with all other arguments
-            if projectile is not None:
-                scaling.projectile = projectile
             if target is not None:
                 scaling.target = target
+            if projectile is not None:
+                scaling.projectile = projectile
 
         return scaling
 
@@ -163,7 +163,7 @@ class Scaling(ComponentBase):
     def projectile(self, value):
         from cratermaker.components.projectile import Projectile
 
-        self._projectile = Projectile.maker(value, **vars(self.common_args))
+        self._projectile = Projectile.maker(value, target=self.target, **vars(self.common_args))
         return
 
     @property
-- 
2.43.0


From 6ec1583f0ee86b006909ab496631e4e7ea8be49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:34 +0000
Subject: [PATCH 72/76] fix: final sizes of very small craters on icy bodies

---
 cratermaker/components/scaling/montecarlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/scaling/montecarlo.py b/cratermaker/components/scaling/montecarlo.py
index 93619e1..fc54d57 100644
--- a/cratermaker/components/scaling/montecarlo.py
+++ b/cratermaker/components/scaling/montecarlo.py
@@ -265,7 +265,7 @@ class MonteCarloScaling(Scaling):
 
         sol = root_scalar(
             lambda x, *args: root_func(x, *args),
-            bracket=(0.1 * final_diameter_simple, 10 * final_diameter_simple),
+            bracket=(1e-3 * final_diameter_simple, 1e3 * final_diameter_simple),
             args=(transient_diameter, self),
         )
         final_diameter_complex = sol.root
-- 
2.43.0


From 8a94f3659027e7b98284316cf7e6a7f51aa88736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:52 +0000
Subject: [PATCH 73/76] fix: a projectile's target shares the simulation's
 random generator

---
 cratermaker/components/projectile/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/projectile/__init__.py b/cratermaker/components/projectile/__init__.py
index 0e3a276..89c8f21 100644
--- a/cratermaker/components/projectile/__init__.py
+++ b/cratermaker/components/projectile/__init__.py
@@ -230,7 +230,7 @@ class Projectile(ComponentBase):
         from cratermaker.components.projectile.comets import CometProjectiles
         from cratermaker.components.target import Target
 
-        target = Target.maker(target, **kwargs)
+        target = Target.maker(target, rng=rng, rng_seed=rng_seed, rng_state=rng_state, **kwargs)
         if projectile is None:
             if target.name in AsteroidProjectiles._catalogue:
                 projectile = "asteroids"
@@ -489,7 +489,7 @@ class Projectile(ComponentBase):
     def target(self, value):
         from cratermaker.components.target import Target
 
-        self._target = Target.maker(value)
+        self._target = Target.maker(value, **vars(self.common_args))
 
     @property
     def catalogue(self) -> str:
-- 
2.43.0


From 4d2aa18a1bc3a31bfdcc0f8d7c35c9a8d0968c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:36 +0000
Subject: [PATCH 74/76] fix: mesh parameters given as integers or numpy numbers
 stand for the same mesh

---
 cratermaker/components/surface/hireslocal.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cratermaker/components/surface/hireslocal.py b/cratermaker/components/surface/hireslocal.py
index 6ffa433..a719dfa 100644
--- a/cratermaker/components/surface/hireslocal.py
+++ b/cratermaker/components/surface/hireslocal.py
@@ -757,7 +757,7 @@ class HiResLocalSurface(Surface):
     def pix(self, value: FloatLike):
         if not isinstance(value, FloatLike) or np.isnan(value) or np.isinf(value) or value <= 0:
             raise TypeError("pix must be a positive float")
-        self._pix = value
+        self._pix = float(value)
 
     @parameter
     def local_radius(self) -> FloatLike:
@@ -774,7 +774,7 @@ class HiResLocalSurface(Surface):
             raise ValueError("local_radius must be less than pi * radius of the target body")
         if value < self.pix:
             raise ValueError("local_radius must be greater than or equal to pix (the approximate face size in the local region")
-        self._local_radius = value
+        self._local_radius = float(value)
 
     @parameter
     def local_location(self) -> PairOfFloats:
@@ -825,7 +825,7 @@ class HiResLocalSurface(Surface):
     def superdomain_scale_factor(self, value: FloatLike):
         if not isinstance(value, FloatLike) or np.isnan(value) or np.isinf(value) or value < 1.0:
             raise TypeError("superdomain_scale_factor must be a positive float greater than or equal to 1")
-        self._superdomain_scale_factor = value
+        self._superdomain_scale_factor = float(value)
 
     @property
     def _hashvars(self):
-- 
2.43.0


From b0b65552bae5d4bd579ae95fb95afc13525f5aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:49 +0000
Subject: [PATCH 75/76] fix: the stored indices of a local region always belong
 to the stored grid, also after a crash

---
 cratermaker/components/surface/hireslocal.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/surface/hireslocal.py b/cratermaker/components/surface/hireslocal.py
index a719dfa..213bc74 100644
--- a/cratermaker/components/surface/hireslocal.py
+++ b/cratermaker/components/surface/hireslocal.py
@@ -647,6 +647,12 @@ class HiResLocalSurface(Surface):
 
         return points
 
+    def _generate_grid(self, **kwargs: Any) -> None:
+        # The stored indices of the local region belong to the grid that is being replaced
+        self.local_grid_indices_file.unlink(missing_ok=True)
+        super()._generate_grid(**kwargs)
+        return
+
     def _load_from_files(self, reset: bool = False, **kwargs: Any):
         is_same_grid = self._is_same_grid
         ask_overwrite = self.ask_overwrite  # Store the current value so we can temporarily turn it off for the reset
@@ -711,14 +717,16 @@ class HiResLocalSurface(Surface):
         if self._local is None:
             self._local = self.extract_region(location=self.local_location, region_radius=self.local_radius)
             self.local.grid_file.unlink(missing_ok=True)
-            self.local_grid_indices_file.unlink(missing_ok=True)
+            # Replace the file only once it has been written completely
+            temp_file = self.local_grid_indices_file.with_suffix(f".tmp.{self._local_grid_indices_file_extension}")
             np.savez_compressed(
-                file=self.local_grid_indices_file,
+                file=temp_file,
                 face_indices=self.local.face_indices,
                 node_indices=self.local.node_indices,
                 edge_indices=self.local.edge_indices,
                 allow_pickle=False,
             )
+            temp_file.replace(self.local_grid_indices_file)
             self._set_local_identifiers()
 
         return self._local
-- 
2.43.0


From 50946496c4109c212339dca9fd5c6e6d4278f3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:49 +0000
Subject: [PATCH 76/76] fix: a surface opened without complete saved output has
 all of its data

---
 cratermaker/components/surface/__init__.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 21c23e9..b1bb679 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -1104,6 +1104,18 @@ class Surface(ComponentBase):
 
         if reset:
             self.reset(**kwargs)
+        else:
+            # Data that the saved output does not have start in their initial state
+            for name, entry in self._data_variable_init.items():
+                if name not in self.uxds:
+                    self._add_new_data(
+                        name=name,
+                        data=entry["initial_value"],
+                        long_name=entry["long_name"],
+                        units=entry["units"],
+                        isfacedata=entry["isfacedata"],
+                        save_to_file=False,
+                    )
 
         self.ask_overwrite = ask_overwrite  # Restore in case we had to set it to False for the reset during regridding
 
-- 
2.43.0

