From 7fca82d0cd0ddf113b383c7cda163a20e6cae949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:08 +0000
Subject: [PATCH 01/28] fix: assign unique ids to equally spaced points and
 cells

The flattened id used the latitude step to count points per row and
truncated instead of rounding, so different grid indices shared one id.
---
 src/tatc/generation/points.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tatc/generation/points.py b/src/tatc/generation/points.py
index 8151d85..0b82b7f 100644
--- a/src/tatc/generation/points.py
+++ b/src/tatc/generation/points.py
@@ -194,7 +194,8 @@ def _compute_equally_spaced_point_id(
     Returns:
         int: The id of this point.
     """
-    return int(j * int(360 / theta_j) + np.mod(i, int(360 / theta_i)))
+    number_i = int(np.round(360 / theta_i))
+    return int(j * number_i + np.mod(i, number_i))
 
 
 def _get_bounds(mask: Union[Polygon, MultiPolygon]) -> tuple:
-- 
2.43.0


From d8dff1f86643f8ce7eee4b092fea106c1ae5d6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:15 +0000
Subject: [PATCH 02/28] fix: report odd-length TLE lists as validation errors

The chronological check ran before the even-length and format checks, so
an odd number of lines escaped as an IndexError.
---
 src/tatc/schemas/orbit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index f9f80c1..f363b92 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -32,9 +32,9 @@ class TwoLineElements(BaseModel):
     type: Literal["tle"] = Field("tle", description="Orbit type discriminator.")
     tle: Annotated[
         List[str],
-        AfterValidator(utils.is_chronological_tle),
-        AfterValidator(utils.is_valid_tle),
         AfterValidator(utils.is_even_length_list),
+        AfterValidator(utils.is_valid_tle),
+        AfterValidator(utils.is_chronological_tle),
     ] = Field(
         ...,
         description="Two line elements. Multiple TLEs must be in chronological order.",
-- 
2.43.0


From 297fc648c00eb97ec22e1870b7a7a44adccb0e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:11 +0000
Subject: [PATCH 03/28] fix: decode negative drag terms of two line elements

A signed mantissa was appended to '0.' and could not be parsed, so valid
elements with a negative b-star or mean motion derivative raised an error.
---
 src/tatc/schemas/orbit.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index f363b92..0159113 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -143,9 +143,9 @@ class TwoLineElements(BaseModel):
             float: the second derivative of mean motion
         """
         # pylint: disable=E1136
-        return float("0." + self.tle[2 * tle_i][44:50].strip()) * 10 ** (
-            int(self.tle[2 * tle_i][50:52])
-        )
+        return float(
+            self.tle[2 * tle_i][44] + "0." + self.tle[2 * tle_i][45:50].strip()
+        ) * 10 ** (int(self.tle[2 * tle_i][50:52]))
 
     def get_b_star(self, tle_i=0) -> float:
         """
@@ -158,9 +158,9 @@ class TwoLineElements(BaseModel):
             float: the b-star term
         """
         # pylint: disable=E1136
-        return float("0." + self.tle[2 * tle_i][53:59].strip()) * 10 ** (
-            int(self.tle[2 * tle_i][59:61])
-        )
+        return float(
+            self.tle[2 * tle_i][53] + "0." + self.tle[2 * tle_i][54:59].strip()
+        ) * 10 ** (int(self.tle[2 * tle_i][59:61]))
 
     def get_ephemeris_type(self, tle_i=0) -> int:
         """
-- 
2.43.0


From f99da0ae5e277ca4f279686bf8ad231079109595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:17 +0000
Subject: [PATCH 04/28] fix: assign the following TLE after each partition
 midpoint

After the midpoint between two epochs the later element set is closest, but
the partition kept assigning the earlier one.
---
 src/tatc/schemas/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index 0159113..783072b 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -466,7 +466,7 @@ class TwoLineElements(BaseModel):
             [start] + list(epoch_midpoints[midpoint_indices]) + [end],
             (
                 [self.get_closest_tle_index(start)]
-                + list(map(int, tle_i[midpoint_indices]))
+                + [int(tle_i[i + 1]) for i in midpoint_indices]
                 + [self.get_closest_tle_index(end)]
             ),
         )
-- 
2.43.0


From 01552900a96d2f858552426512423fc8dec43aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:24 +0000
Subject: [PATCH 05/28] fix: keep the orbital period of derived Molniya and
 Tundra orbits

---
 src/tatc/schemas/orbit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index 783072b..9bcb090 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -1093,7 +1093,7 @@ class MolniyaOrbit(OrbitBase):
             epoch=self.epoch,
             inclination=self.inclination,
             right_ascension_ascending_node=raan,
-            eccentricity=self.get_eccentricity(),
+            orbital_period=self.orbital_period,
             perigee_argument=self.perigee_argument,
         )
 
@@ -1178,6 +1178,7 @@ class TundraOrbit(MolniyaOrbit):
             epoch=self.epoch,
             inclination=self.inclination,
             right_ascension_ascending_node=raan,
+            orbital_period=self.orbital_period,
             eccentricity=self.eccentricity,
             perigee_argument=self.perigee_argument,
         )
-- 
2.43.0


From 71253eae51691a59e3059546ea6661444d6cf4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:30 +0000
Subject: [PATCH 06/28] fix: report the specified period of Molniya and Tundra
 orbits

The period and mean motion were computed from the perigee altitude as if the
orbit were circular, contradicting orbital_period and the generated TLE.
---
 src/tatc/schemas/orbit.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index 9bcb090..5940ba0 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -1045,6 +1045,15 @@ class MolniyaOrbit(OrbitBase):
             / (4 * (np.pi**2))
         )
 
+    def get_orbit_period(self) -> timedelta:
+        """
+        Gets the approximate orbit period.
+
+        Returns:
+            timedelta: the orbit period
+        """
+        return timedelta(seconds=self.orbital_period)
+
     def get_eccentricity(self) -> float:
         """
         Gets the eccentricity (float between 0 and 1).
-- 
2.43.0


From 8a361658b88ea4f28dc89c5de7188289d8f49989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:38 +0000
Subject: [PATCH 07/28] fix: do not modify the data frame passed to
 normalize_geometry

---
 src/tatc/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 04f2202..543aec9 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -1183,6 +1183,7 @@ def normalize_geometry(
     elif isinstance(geometry, gpd.GeoSeries):
         geometry = gpd.GeoDataFrame(geometry=geometry, crs="EPSG:4326")
     if isinstance(geometry, gpd.GeoDataFrame):
+        geometry = geometry.copy()
         geometry["geometry"] = geometry.apply(
             lambda r: split_polygon(r.geometry),
             axis=1,
-- 
2.43.0


From 11c4d5f78b4b4465168317db1fe25ae327da3c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:45 +0000
Subject: [PATCH 08/28] fix: wrap polygon interiors over the south pole

A stray comma made each interior longitude a tuple.
---
 src/tatc/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 543aec9..d465ed5 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -908,7 +908,7 @@ def _wrap_polygon_over_south_pole(
             [
                 [
                     [
-                        (c[0] + lat_shift if c[1] <= -90 else c[0],),
+                        c[0] + lat_shift if c[1] <= -90 else c[0],
                         -180 - c[1] if c[1] <= -90 else c[1],
                     ]
                     for c in i.coords
-- 
2.43.0


From 59900aacfb981e4272c7736775114fb8db96fbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:51 +0000
Subject: [PATCH 09/28] fix: return polygons on both sides of the antimeridian
 unwrapped

Neither wrapping branch applies to a polygon with vertices on both sides, so
the wrapped polygon was used before assignment.
---
 src/tatc/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index d465ed5..c995e3d 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -1002,12 +1002,15 @@ def _wrap_polygon_over_antimeridian(
                 [[c[0] + 360, c[1]] for c in polygon.exterior.coords],
                 [[[c[0] + 360, c[1]] for c in i.coords] for i in polygon.interiors],
             )
-        if all(c[0] >= 180 for c in polygon.exterior.coords):
+        elif all(c[0] >= 180 for c in polygon.exterior.coords):
             # map longitudes from [180, 540) to [-180, 180)
             pgon = Polygon(
                 [[c[0] - 360, c[1]] for c in polygon.exterior.coords],
                 [[[c[0] - 360, c[1]] for c in i.coords] for i in polygon.interiors],
             )
+        else:
+            # cannot wrap a polygon on both sides of the antimeridian
+            return polygon
         # give up and return original polygon if invalid
         if not pgon.is_valid:
             return polygon
-- 
2.43.0


From 04a519e8458069b53a43c1411e62fc184f15a910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:57 +0000
Subject: [PATCH 10/28] fix: convert inclination to radians for ground velocity

The cosine of the inclination was taken after converting with degrees().
---
 src/tatc/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index c995e3d..6fe83ff 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -303,7 +303,7 @@ def compute_ground_velocity(altitude: float, inclination: float) -> float:
     mean_motion_rad_s = np.sqrt(constants.EARTH_MU / semimajor_axis**3)
     return constants.EARTH_MEAN_RADIUS * (
         mean_motion_rad_s
-        - (2 * np.pi * np.cos(np.degrees(inclination)) / constants.EARTH_SIDEREAL_DAY_S)
+        - (2 * np.pi * np.cos(np.radians(inclination)) / constants.EARTH_SIDEREAL_DAY_S)
     )
 
 
@@ -326,7 +326,7 @@ def along_track_distance_to_access_time(
     mean_motion_rad_s = np.sqrt(constants.EARTH_MU / semimajor_axis**3)
     ground_velocity = constants.EARTH_MEAN_RADIUS * (
         mean_motion_rad_s
-        - (2 * np.pi * np.cos(np.degrees(inclination)) / constants.EARTH_SIDEREAL_DAY_S)
+        - (2 * np.pi * np.cos(np.radians(inclination)) / constants.EARTH_SIDEREAL_DAY_S)
     )
     return along_track / ground_velocity
 
@@ -350,7 +350,7 @@ def access_time_to_along_track_distance(
     mean_motion_rad_s = np.sqrt(constants.EARTH_MU / semimajor_axis**3)
     ground_velocity = constants.EARTH_MEAN_RADIUS * (
         mean_motion_rad_s
-        - (2 * np.pi * np.cos(np.degrees(inclination)) / constants.EARTH_SIDEREAL_DAY_S)
+        - (2 * np.pi * np.cos(np.radians(inclination)) / constants.EARTH_SIDEREAL_DAY_S)
     )
     return ground_velocity * access_time
 
-- 
2.43.0


From f851a8d81bbe0628726868e16879f0e7650af41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:03 +0000
Subject: [PATCH 11/28] fix: use the whole look angle in
 swath_width_to_field_of_view

The look angle is measured from nadir to the observation center, not a full
field of regard, and must not be halved.
---
 src/tatc/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 6fe83ff..1f64dc2 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -151,7 +151,7 @@ def swath_width_to_field_of_view(
         constants.EARTH_MEAN_RADIUS + altitude
     )
     # eta is the angular radius from sub-satellite point to center of view
-    sin_eta = min(sin_rho, np.sin(np.radians(look_angle) / 2))
+    sin_eta = min(sin_rho, np.sin(np.radians(look_angle)))
     # epsilon is the satellite elevation from the center of view
     cos_epsilon = sin_eta / sin_rho
     # lambda is the Earth central angle to the center of view
-- 
2.43.0


From 4762e58992c8af197b1a1b8ec1a1584bca9eccda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:59 +0000
Subject: [PATCH 12/28] fix: keep derived orbit angles below 360 degrees

For tiny negative angles the floating-point modulo rounds up to exactly 360,
which the orbit schemas reject.
---
 src/tatc/schemas/orbit.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index 5940ba0..1887841 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -778,10 +778,12 @@ class CircularOrbit(OrbitBase):
         true_anomaly = utils.mean_anomaly_to_true_anomaly(
             np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360)
         )
-        raan = np.mod(self.right_ascension_ascending_node + delta_raan, 360)
+        raan = np.mod(
+            np.mod(self.right_ascension_ascending_node + delta_raan, 360), 360
+        )
         return CircularOrbit(
             altitude=self.altitude,
-            true_anomaly=true_anomaly,
+            true_anomaly=np.mod(true_anomaly, 360),
             epoch=self.epoch,
             inclination=self.inclination,
             right_ascension_ascending_node=raan,
@@ -888,13 +890,15 @@ class SunSynchronousOrbit(OrbitBase):
         true_anomaly = utils.mean_anomaly_to_true_anomaly(
             np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360)
         )
-        raan = np.mod(self.get_right_ascension_ascending_node() + delta_raan, 360)
+        raan = np.mod(
+            np.mod(self.get_right_ascension_ascending_node() + delta_raan, 360), 360
+        )
         # TODO the resulting orbit *is* still sun-synchronous; however, with a
         # different equator-crossing time. Need to do the math to determine.
         # For now, simply return a circular orbit with the correct parameters.
         return CircularOrbit(
             altitude=self.altitude,
-            true_anomaly=true_anomaly,
+            true_anomaly=np.mod(true_anomaly, 360),
             epoch=self.epoch,
             inclination=self.get_inclination(),
             right_ascension_ascending_node=raan,
@@ -968,10 +972,12 @@ class KeplerianOrbit(CircularOrbit):
             np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360),
             eccentricity=self.eccentricity,
         )
-        raan = np.mod(self.right_ascension_ascending_node + delta_raan, 360)
+        raan = np.mod(
+            np.mod(self.right_ascension_ascending_node + delta_raan, 360), 360
+        )
         return KeplerianOrbit(
             altitude=self.altitude,
-            true_anomaly=true_anomaly,
+            true_anomaly=np.mod(true_anomaly, 360),
             epoch=self.epoch,
             inclination=self.inclination,
             right_ascension_ascending_node=raan,
@@ -1095,10 +1101,12 @@ class MolniyaOrbit(OrbitBase):
             np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360),
             eccentricity=self.get_eccentricity(),
         )
-        raan = np.mod(self.right_ascension_ascending_node + delta_raan, 360)
+        raan = np.mod(
+            np.mod(self.right_ascension_ascending_node + delta_raan, 360), 360
+        )
         return MolniyaOrbit(
             altitude=self.altitude,
-            true_anomaly=true_anomaly,
+            true_anomaly=np.mod(true_anomaly, 360),
             epoch=self.epoch,
             inclination=self.inclination,
             right_ascension_ascending_node=raan,
@@ -1180,10 +1188,12 @@ class TundraOrbit(MolniyaOrbit):
             np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360),
             eccentricity=self.get_eccentricity(),
         )
-        raan = np.mod(self.right_ascension_ascending_node + delta_raan, 360)
+        raan = np.mod(
+            np.mod(self.right_ascension_ascending_node + delta_raan, 360), 360
+        )
         return TundraOrbit(
             altitude=self.altitude,
-            true_anomaly=true_anomaly,
+            true_anomaly=np.mod(true_anomaly, 360),
             epoch=self.epoch,
             inclination=self.inclination,
             right_ascension_ascending_node=raan,
-- 
2.43.0


From b0d61481a5e131ff8f505aa8caf8cba1cb9eccf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:05 +0000
Subject: [PATCH 13/28] fix: accept streets of coverage constellations in an
 architecture

---
 src/tatc/schemas/architecture.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tatc/schemas/architecture.py b/src/tatc/schemas/architecture.py
index e82f4ab..e22a543 100644
--- a/src/tatc/schemas/architecture.py
+++ b/src/tatc/schemas/architecture.py
@@ -14,6 +14,7 @@ from .satellite import (
     TrainConstellation,
     WalkerConstellation,
     MOGConstellation,
+    SOCConstellation,
 )
 from .point import GroundStation
 
@@ -25,7 +26,13 @@ class Architecture(BaseModel):
 
     name: str = Field(..., description="Name of this mission.")
     satellites: List[
-        Union[Satellite, TrainConstellation, WalkerConstellation, MOGConstellation]
+        Union[
+            Satellite,
+            TrainConstellation,
+            WalkerConstellation,
+            MOGConstellation,
+            SOCConstellation,
+        ]
     ] = Field([], description="List of member space systems.")
     stations: List[GroundStation] = Field(
         [], description="List of member ground stations."
-- 
2.43.0


From bfc5c025de36c389e9162f078fab484a577ed748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:14 +0000
Subject: [PATCH 14/28] fix: keep pointed instruments when satellites are
 serialized

Instruments were typed as the base class, so dumping or validating a satellite
dropped the fields of pointed instruments.
---
 src/tatc/schemas/satellite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tatc/schemas/satellite.py b/src/tatc/schemas/satellite.py
index 66e8146..8fc0e94 100644
--- a/src/tatc/schemas/satellite.py
+++ b/src/tatc/schemas/satellite.py
@@ -22,7 +22,7 @@ from tatc.utils import (
     compute_min_elevation_angle,
 )
 from ..constants import EARTH_MEAN_RADIUS
-from .instrument import Instrument
+from .instrument import Instrument, PointedInstrument
 from .orbit import TwoLineElements, CircularOrbit, SunSynchronousOrbit, KeplerianOrbit
 
 
@@ -39,7 +39,7 @@ class SpaceSystem(BaseModel):
     orbit: Union[
         TwoLineElements, CircularOrbit, SunSynchronousOrbit, KeplerianOrbit
     ] = Field(..., description="Orbit specification.")
-    instruments: List[Instrument] = Field(
+    instruments: List[Union[PointedInstrument, Instrument]] = Field(
         [Instrument()], min_length=1, description="List of assigned instruments."
     )
 
-- 
2.43.0


From fa1415c1a3b51a2caaedaf2b608352601e79b994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:01 +0000
Subject: [PATCH 15/28] fix: weight gridded metrics by the samples of each
 point

The weights were looked up by cell index in the reduced results, which picks
the samples of unrelated points or fails.
---
 src/tatc/analysis/coverage.py | 23 +++++++++++------------
 src/tatc/analysis/latency.py  | 21 ++++++++++-----------
 2 files changed, 21 insertions(+), 23 deletions(-)

diff --git a/src/tatc/analysis/coverage.py b/src/tatc/analysis/coverage.py
index 856f86f..80d0347 100644
--- a/src/tatc/analysis/coverage.py
+++ b/src/tatc/analysis/coverage.py
@@ -433,18 +433,17 @@ def grid_observations(
     # convert access and revisit to numeric values before aggregation
     gdf["access"] = gdf["access"] / timedelta(seconds=1)
     gdf["revisit"] = gdf["revisit"] / timedelta(seconds=1)
-    gdf = (
-        cells.sjoin(gdf, how="inner", predicate="contains")
-        .dissolve(
-            by="cell_id",
-            aggfunc={
-                "samples": "sum",
-                "access": lambda r: np.average(r, weights=gdf.loc[r.index, "samples"]),
-                "revisit": lambda r: np.average(r, weights=gdf.loc[r.index, "samples"]),
-            },
-        )
-        .reset_index()
-    )
+    # match points to cells with a unique index to select sample weights
+    gdf = cells.sjoin(gdf, how="inner", predicate="contains").reset_index(drop=True)
+    samples = gdf["samples"]
+    gdf = gdf.dissolve(
+        by="cell_id",
+        aggfunc={
+            "samples": "sum",
+            "access": lambda r: np.average(r, weights=samples.loc[r.index]),
+            "revisit": lambda r: np.average(r, weights=samples.loc[r.index]),
+        },
+    ).reset_index()
     # convert access and revisit from numeric values after aggregation
     gdf["access"] = gdf["access"].apply(lambda t: timedelta(seconds=t))
     gdf["revisit"] = gdf["revisit"].apply(
diff --git a/src/tatc/analysis/latency.py b/src/tatc/analysis/latency.py
index 50528fa..d645146 100644
--- a/src/tatc/analysis/latency.py
+++ b/src/tatc/analysis/latency.py
@@ -273,17 +273,16 @@ def grid_latencies(
     gdf = reduced_latencies.copy()
     # convert latency to numeric values before aggregation
     gdf["latency"] = gdf["latency"] / timedelta(seconds=1)
-    gdf = (
-        cells.sjoin(gdf, how="inner", predicate="contains")
-        .dissolve(
-            by="cell_id",
-            aggfunc={
-                "samples": "sum",
-                "latency": lambda r: np.average(r, weights=gdf.loc[r.index, "samples"]),
-            },
-        )
-        .reset_index()
-    )
+    # match points to cells with a unique index to select sample weights
+    gdf = cells.sjoin(gdf, how="inner", predicate="contains").reset_index(drop=True)
+    samples = gdf["samples"]
+    gdf = gdf.dissolve(
+        by="cell_id",
+        aggfunc={
+            "samples": "sum",
+            "latency": lambda r: np.average(r, weights=samples.loc[r.index]),
+        },
+    ).reset_index()
     # convert latency from numeric values after aggregation
     gdf["latency"] = gdf["latency"].apply(
         lambda t: pd.NaT if pd.isna(t) else timedelta(seconds=t)
-- 
2.43.0


From 2e899fa51e73eda7e98ee57ad34894249121a938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:41 +0000
Subject: [PATCH 16/28] fix: order dilution of precision geometry as longitude,
 latitude

---
 src/tatc/analysis/dop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/analysis/dop.py b/src/tatc/analysis/dop.py
index fab7deb..7d274d2 100644
--- a/src/tatc/analysis/dop.py
+++ b/src/tatc/analysis/dop.py
@@ -126,7 +126,7 @@ def compute_dop(
         "dop": pd.Series(dop, dtype="float", index=times),
         "geometry": pd.Series(
             gpd.points_from_xy(
-                [point.latitude] * len(dop), [point.longitude] * len(dop)
+                [point.longitude] * len(dop), [point.latitude] * len(dop)
             ),
             dtype="object",
             index=times,
-- 
2.43.0


From 1cc48ba466110af0bd081f782f974bf08a7cbfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:48 +0000
Subject: [PATCH 17/28] fix: consider point elevation for dilution of precision

---
 src/tatc/analysis/dop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/analysis/dop.py b/src/tatc/analysis/dop.py
index 7d274d2..e83b62f 100644
--- a/src/tatc/analysis/dop.py
+++ b/src/tatc/analysis/dop.py
@@ -68,7 +68,7 @@ def compute_dop(
     sk_times = timescale.from_datetimes(times)
 
     # construct skyfield geodetic position for user
-    sk_position = wgs84.latlon(point.latitude, point.longitude)
+    sk_position = wgs84.latlon(point.latitude, point.longitude, point.elevation)
 
     # compute elevation/azimuth angles and range
     altazs = [(sk_sat - sk_position).at(sk_times).altaz() for sk_sat in sk_sats]
-- 
2.43.0


From 9201902daa2ff517911872e6701ca0f61294d687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:56 +0000
Subject: [PATCH 18/28] fix: propagate dilution of precision with the closest
 TLE

Only the first element set of each satellite was used at all times.
---
 src/tatc/analysis/dop.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/tatc/analysis/dop.py b/src/tatc/analysis/dop.py
index e83b62f..66fa64f 100644
--- a/src/tatc/analysis/dop.py
+++ b/src/tatc/analysis/dop.py
@@ -13,7 +13,7 @@ from typing import List
 import pandas as pd
 import numpy as np
 import geopandas as gpd
-from skyfield.api import wgs84, EarthSatellite
+from skyfield.api import wgs84
 
 from ..constants import timescale
 from ..schemas import Point, Satellite
@@ -54,16 +54,6 @@ def compute_dop(
     - geopandas.GeoDataFrame: the dop for the given user location and satellite.
 
     """
-    # construct skyfield satellites for each satellite
-    sk_sats = [
-        EarthSatellite(
-            satellite.orbit.to_tle().tle[0],
-            satellite.orbit.to_tle().tle[1],
-            satellite.name,
-        )
-        for satellite in satellites
-    ]
-
     # construct skyfield times for each datetime
     sk_times = timescale.from_datetimes(times)
 
@@ -71,7 +61,12 @@ def compute_dop(
     sk_position = wgs84.latlon(point.latitude, point.longitude, point.elevation)
 
     # compute elevation/azimuth angles and range
-    altazs = [(sk_sat - sk_position).at(sk_times).altaz() for sk_sat in sk_sats]
+    altazs = [
+        (
+            satellite.orbit.to_tle().get_orbit_track(times) - sk_position.at(sk_times)
+        ).altaz()
+        for satellite in satellites
+    ]
     el = np.array(list(map(lambda i: i[0].radians, altazs)))
     az = np.array(list(map(lambda i: i[1].radians, altazs)))
     r = np.array(list(map(lambda i: i[2].m, altazs)))
-- 
2.43.0


From 18d63dec6d888e99b827c3466805e3cb17fc9ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:36 +0000
Subject: [PATCH 19/28] fix: filter visible intervals with the closest TLE

The maximum access time was computed from the first element set regardless of
the analysis period.
---
 src/tatc/analysis/coverage.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/tatc/analysis/coverage.py b/src/tatc/analysis/coverage.py
index 80d0347..4e158b3 100644
--- a/src/tatc/analysis/coverage.py
+++ b/src/tatc/analysis/coverage.py
@@ -46,12 +46,10 @@ def _get_visible_interval_series(
     Returns:
         pandas.Series: Series of observation intervals.
     """
-    # define starting and ending points
-    t_0 = timescale.from_datetime(start)
-    # build skyfield objects
-    sat = satellite.orbit.to_tle().as_skyfield()
     # compute the initial satellite altitude
-    satellite_altitude = wgs84.geographic_position_of(sat.at(t_0)).elevation.m
+    satellite_altitude = wgs84.geographic_position_of(
+        satellite.orbit.to_tle().get_orbit_track(start)
+    ).elevation.m
     # compute the maximum access time to filter bad data
     max_access_time = timedelta(
         seconds=compute_max_access_time(satellite_altitude, min_elevation_angle)
-- 
2.43.0


From 995f772ae32d8a73ee816b074e3ef25ebb3420b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:09 +0000
Subject: [PATCH 20/28] fix: report transmitter azimuth from the closest TLE

The azimuth at the tangent point always used the first element set, unlike
the propagated transmitter track.
---
 src/tatc/analysis/ro_coverage.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tatc/analysis/ro_coverage.py b/src/tatc/analysis/ro_coverage.py
index f68639b..16e29ac 100644
--- a/src/tatc/analysis/ro_coverage.py
+++ b/src/tatc/analysis/ro_coverage.py
@@ -152,8 +152,7 @@ def _collect_ro_series(
 
             # azimuth of transmitter from geodetic tangent point (clockwise from North)
             tp_tx_azmimuth = (
-                (transmitter.orbit.to_tle().as_skyfield() - tpp_geo)
-                .at(timescale.from_datetime(times[j]))
+                (tx_pv[j] - tpp_geo.at(timescale.from_datetime(times[j])))
                 .altaz()[1]
                 .degrees
             )
-- 
2.43.0


From d44e2495fe45e5add5cb566bed99f416adb8f75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:17 +0000
Subject: [PATCH 21/28] fix: include all columns in empty aggregate and latency
 results

---
 src/tatc/analysis/coverage.py | 2 ++
 src/tatc/analysis/latency.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/tatc/analysis/coverage.py b/src/tatc/analysis/coverage.py
index 4e158b3..17cc3ce 100644
--- a/src/tatc/analysis/coverage.py
+++ b/src/tatc/analysis/coverage.py
@@ -307,6 +307,8 @@ def _get_empty_aggregate_frame() -> gpd.GeoDataFrame:
         "start": pd.Series([], dtype="datetime64[ns, utc]"),
         "epoch": pd.Series([], dtype="datetime64[ns, utc]"),
         "end": pd.Series([], dtype="datetime64[ns, utc]"),
+        "access": pd.Series([], dtype="timedelta64[ns]"),
+        "revisit": pd.Series([], dtype="timedelta64[ns]"),
     }
     return gpd.GeoDataFrame(columns, crs="EPSG:4326")
 
diff --git a/src/tatc/analysis/latency.py b/src/tatc/analysis/latency.py
index d645146..567e3a7 100644
--- a/src/tatc/analysis/latency.py
+++ b/src/tatc/analysis/latency.py
@@ -101,6 +101,8 @@ def _get_empty_latency_frame() -> gpd.GeoDataFrame:
         "geometry": pd.Series([], dtype="object"),
         "satellite": pd.Series([], dtype="str"),
         "instrument": pd.Series([], dtype="str"),
+        "sat_alt": pd.Series([], dtype="float"),
+        "sat_az": pd.Series([], dtype="float"),
         "observed": pd.Series([], dtype="datetime64[ns, utc]"),
         "station": pd.Series([], dtype="str"),
         "downlinked": pd.Series([], dtype="datetime64[ns, utc]"),
-- 
2.43.0


From 5c12e1abad9ec78e1b4ea7fee671227d23719bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:55 +0000
Subject: [PATCH 22/28] fix: include requested columns in empty track results

---
 src/tatc/analysis/track.py | 56 +++++++++++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 10 deletions(-)

diff --git a/src/tatc/analysis/track.py b/src/tatc/analysis/track.py
index 3ff3274..15932a6 100644
--- a/src/tatc/analysis/track.py
+++ b/src/tatc/analysis/track.py
@@ -35,10 +35,21 @@ from ..utils import (
 from ..constants import de421, EARTH_MEAN_RADIUS, timescale
 
 
-def _get_empty_orbit_track() -> gpd.GeoDataFrame:
+def _get_empty_orbit_track(
+    velocity: bool = False,
+    sat_sunlit: bool = False,
+    solar_altaz: bool = False,
+    solar_beta: bool = False,
+) -> gpd.GeoDataFrame:
     """
     Gets an empty data frame for orbit track results.
 
+    Args:
+        velocity (bool): `True` to include satellite velocity.
+        sat_sunlit (bool): `True` to include whether the satellite is sunlit.
+        solar_altaz (bool): `True` to include solar altitude/azimuth angles.
+        solar_beta (bool): `True` to include solar beta angles.
+
     Returns:
         geopandas.GeoDataFrame: Empty data frame.
     """
@@ -50,6 +61,15 @@ def _get_empty_orbit_track() -> gpd.GeoDataFrame:
         "valid_obs": pd.Series([], dtype="bool"),
         "geometry": pd.Series([], dtype="object"),
     }
+    if velocity:
+        columns["velocity"] = pd.Series([], dtype="object")
+    if sat_sunlit:
+        columns["sat_sunlit"] = pd.Series([], dtype="bool")
+    if solar_altaz:
+        columns["solar_alt"] = pd.Series([], dtype="float")
+        columns["solar_az"] = pd.Series([], dtype="float")
+    if solar_beta:
+        columns["solar_beta"] = pd.Series([], dtype="float")
     return gpd.GeoDataFrame(columns, crs="EPSG:4326")
 
 
@@ -112,7 +132,9 @@ def collect_orbit_track(
         geopandas.GeoDataFrame: The data frame of collected orbit track results.
     """
     if len(times) == 0:
-        return _get_empty_orbit_track()
+        return _get_empty_orbit_track(
+            orbit_output != OrbitOutput.POSITION, sat_sunlit, solar_altaz, solar_beta
+        )
     # select the observing instrument
     instrument = satellite.instruments[instrument_index]
     # propagate orbit
@@ -131,7 +153,9 @@ def collect_orbit_track(
             )
         ]
         if not any(mask_contains_ssp):
-            return _get_empty_orbit_track()
+            return _get_empty_orbit_track(
+                orbit_output != OrbitOutput.POSITION, sat_sunlit, solar_altaz, solar_beta
+            )
         orbit_track = orbit_track[mask_contains_ssp]
         # recompute ssp
         ssp = wgs84.geographic_position_of(orbit_track)
@@ -236,10 +260,16 @@ def collect_orbit_track(
     return track
 
 
-def _get_empty_ground_track() -> gpd.GeoDataFrame:
+def _get_empty_ground_track(
+    sat_altaz: bool = False, solar_altaz: bool = False
+) -> gpd.GeoDataFrame:
     """
     Gets an empty data frame for ground track results.
 
+    Args:
+        sat_altaz (bool): `True` to include satellite altitude/azimuth angles.
+        solar_altaz (bool): `True` to include solar altitude/azimuth angles.
+
     Returns:
         geopandas.GeoDataFrame: Empty data frame.
     """
@@ -250,6 +280,12 @@ def _get_empty_ground_track() -> gpd.GeoDataFrame:
         "valid_obs": pd.Series([], dtype="bool"),
         "geometry": pd.Series([], dtype="object"),
     }
+    if sat_altaz:
+        columns["sat_alt"] = pd.Series([], dtype="float")
+        columns["sat_az"] = pd.Series([], dtype="float")
+    if solar_altaz:
+        columns["solar_alt"] = pd.Series([], dtype="float")
+        columns["solar_az"] = pd.Series([], dtype="float")
     return gpd.GeoDataFrame(columns, crs="EPSG:4326")
 
 
@@ -326,7 +362,7 @@ def collect_ground_track(
     """
 
     if len(times) == 0:
-        return _get_empty_ground_track()
+        return _get_empty_ground_track(sat_altaz, solar_altaz)
     # propagate orbit
     orbit_track = satellite.orbit.to_tle().get_orbit_track(times)
     # select the observing instrument
@@ -360,7 +396,7 @@ def collect_ground_track(
             )
         ]
         if not any(buffered_mask_contains_ssp):
-            return _get_empty_ground_track()
+            return _get_empty_ground_track(sat_altaz, solar_altaz)
         orbit_track = orbit_track[buffered_mask_contains_ssp]
         # compute footprint for culling
         footprint = instrument.compute_footprint(orbit_track, elevation=elevation)
@@ -374,7 +410,7 @@ def collect_ground_track(
             for f in (footprint if isinstance(footprint, list) else [footprint])
         ]
         if not any(mask_intersects_footprint):
-            return _get_empty_ground_track()
+            return _get_empty_ground_track(sat_altaz, solar_altaz)
         orbit_track = orbit_track[mask_intersects_footprint]
     # compute targets
     target = instrument.compute_footprint_center(orbit_track, elevation)
@@ -643,7 +679,7 @@ def collect_ground_pixels(
     """
 
     if len(times) == 0:
-        return _get_empty_ground_track()
+        return _get_empty_ground_track(sat_altaz, solar_altaz)
     # propagate orbit
     orbit_track = satellite.orbit.to_tle().get_orbit_track(times)
     # select the observing instrument
@@ -681,7 +717,7 @@ def collect_ground_pixels(
             )
         ]
         if not any(buffered_mask_contains_ssp):
-            return _get_empty_ground_track()
+            return _get_empty_ground_track(sat_altaz, solar_altaz)
         orbit_track = orbit_track[buffered_mask_contains_ssp]
         # compute footprint for culling
         footprint = instrument.compute_footprint(orbit_track, elevation=elevation)
@@ -695,7 +731,7 @@ def collect_ground_pixels(
             for f in (footprint if isinstance(footprint, list) else [footprint])
         ]
         if not any(mask_intersects_footprint):
-            return _get_empty_ground_track()
+            return _get_empty_ground_track(sat_altaz, solar_altaz)
         orbit_track = orbit_track[mask_intersects_footprint]
     # compute the footprint pixel array
     geometries = instrument.compute_footprint_pixel_array(
-- 
2.43.0


From 0ca4b4e8029d6ca2f3bc177bc0ed70a21d99b145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:01 +0000
Subject: [PATCH 23/28] fix: consider every geometry of a GeoSeries mask for
 ground tracks

Only the first geometry was used to cull the orbit track, dropping results
over the remaining geometries.
---
 src/tatc/analysis/track.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/tatc/analysis/track.py b/src/tatc/analysis/track.py
index 15932a6..2e8362f 100644
--- a/src/tatc/analysis/track.py
+++ b/src/tatc/analysis/track.py
@@ -374,10 +374,13 @@ def collect_ground_track(
                 mask
                 if isinstance(mask, (Polygon, MultiPolygon))
                 else (
-                    mask.dissolve().iloc[0].geometry
+                    mask
                     if isinstance(mask, gpd.GeoDataFrame)
-                    else mask.iloc[0]
+                    else gpd.GeoDataFrame(geometry=mask)
                 )
+                .dissolve()
+                .iloc[0]
+                .geometry
             ),
             altitude=satellite.orbit.to_tle().get_altitude(),
             inclination=satellite.orbit.to_tle().get_inclination(),
@@ -695,10 +698,13 @@ def collect_ground_pixels(
                 mask
                 if isinstance(mask, (Polygon, MultiPolygon))
                 else (
-                    mask.dissolve().iloc[0].geometry
+                    mask
                     if isinstance(mask, gpd.GeoDataFrame)
-                    else mask.iloc[0]
+                    else gpd.GeoDataFrame(geometry=mask)
                 )
+                .dissolve()
+                .iloc[0]
+                .geometry
             ),
             altitude=satellite.orbit.to_tle().get_altitude(),
             inclination=satellite.orbit.to_tle().get_inclination(),
-- 
2.43.0


From bac2cd1e80e4a160e48f34a7e8e517fd971b4c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:56 +0000
Subject: [PATCH 24/28] fix: keep all parts of line ground tracks over the
 antimeridian

Splitting a track at the antimeridian added several segments for one swath
width, so later segments were dropped and paired with the wrong tracks.
---
 src/tatc/analysis/track.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tatc/analysis/track.py b/src/tatc/analysis/track.py
index 2e8362f..c434a1e 100644
--- a/src/tatc/analysis/track.py
+++ b/src/tatc/analysis/track.py
@@ -21,6 +21,7 @@ from shapely.geometry import (
     MultiPolygon,
     Point,
     LineString,
+    MultiLineString,
 )
 from shapely.ops import clip_by_rect, split
 import pyproj
@@ -610,7 +611,7 @@ def compute_ground_track(
                     LineString([(shift_dir, -180), (shift_dir, 180)]),
                 )
                 # map longitudes from (-540, -180] to (-180, 180] and from [180, 540) to [-180, 180)
-                segments.extend(
+                lines = MultiLineString(
                     [
                         (
                             LineString([(c[0] + 360, c[1], c[2]) for c in line.coords])
@@ -628,6 +629,7 @@ def compute_ground_track(
                         for line in collection.geoms
                     ]
                 )
+                segments.append(lines)
         to_crs = pyproj.Transformer.from_crs(track.crs, pyproj.CRS(crs), always_xy=True)
         from_crs = pyproj.Transformer.from_crs(
             pyproj.CRS(crs), track.crs, always_xy=True
-- 
2.43.0


From af7f76baeaad47d88bb281e3ffea908ed5970937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:02 +0000
Subject: [PATCH 25/28] fix: do not clip Cartesian orbit tracks with a
 geographic mask

Orbit tracks are trimmed to the mask by sub-satellite point; clipping ECEF or
ECI coordinates (meters) again dropped valid results.
---
 src/tatc/analysis/track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/analysis/track.py b/src/tatc/analysis/track.py
index c434a1e..d11b978 100644
--- a/src/tatc/analysis/track.py
+++ b/src/tatc/analysis/track.py
@@ -256,7 +256,7 @@ def collect_orbit_track(
         sun = de421["earth"].at(orbit_track.t).observe(de421["sun"]).position.m
         beta = np.pi / 2 - angle_between(plane_normal, sun)
         track["solar_beta"] = np.degrees(beta)
-    if mask is not None:
+    if mask is not None and coordinates == OrbitCoordinate.WGS84:
         track = gpd.clip(track, mask).reset_index(drop=True)
     return track
 
-- 
2.43.0


From 5a55d2ff7b667aaa9084fb27a69c609debe1f8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:09 +0000
Subject: [PATCH 26/28] fix: project pixels over the full field of view

The cone angle is measured from the view center but was used as the full
field of view, so pixels spanned only half of the footprint.
---
 src/tatc/schemas/instrument.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tatc/schemas/instrument.py b/src/tatc/schemas/instrument.py
index 073633e..6b5bb05 100644
--- a/src/tatc/schemas/instrument.py
+++ b/src/tatc/schemas/instrument.py
@@ -324,8 +324,8 @@ class PointedInstrument(Instrument):
 
         return compute_projected_ray_position(
             orbit_track=orbit_track,
-            cross_track_field_of_view=cone,
-            along_track_field_of_view=cone,
+            cross_track_field_of_view=2 * cone,
+            along_track_field_of_view=2 * cone,
             roll_angle=self.roll_angle,
             pitch_angle=self.pitch_angle,
             is_rectangular=False,
-- 
2.43.0


From e304b941a7e681d6eaf4f69935501c7eb81e8d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:16 +0000
Subject: [PATCH 27/28] fix: report every malformed configuration file as
 ConfigError

Scanner errors and files without a mapping escaped as other exceptions.
---
 src/tatc/config.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tatc/config.py b/src/tatc/config.py
index 86aeaee..4e12ff7 100644
--- a/src/tatc/config.py
+++ b/src/tatc/config.py
@@ -9,7 +9,6 @@ import os
 import pathlib
 
 import yaml
-from yaml.parser import ParserError
 from pydantic import BaseModel, Field, ValidationError
 
 
@@ -75,10 +74,10 @@ def load_yaml_config(path: pathlib.Path):
     with open(path, "r", encoding="utf-8") as f:
         try:
             config = yaml.safe_load(f)
-        except ParserError as err:
+        except yaml.YAMLError as err:
             raise ConfigError(f"Couldn't parse config file - {err}") from err
     try:
-        return RuntimeConfiguration(**config)
+        return RuntimeConfiguration.model_validate(config)
     except ValidationError as err:
         raise ConfigError(f"Couldn't validate config file - {err}") from err
 
-- 
2.43.0


From 19edc0f756fc1d83cb961f607b0ff46deea58bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:48 +0000
Subject: [PATCH 28/28] fix: interpolate polar polygon latitude at the
 antimeridian

---
 src/tatc/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 1f64dc2..01b7c66 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -1082,7 +1082,7 @@ def _split_polygon_antimeridian(
             n_s = 1 if np.array(coords)[:, 1].mean() > 0 else -1
             # interpolate latitude at antimeridian
             lat = np.interp(
-                180, [coords[-1][0], coords[0][0] + 180], [coords[-1][1], coords[0][1]]
+                180, [coords[-1][0], coords[0][0] + 360], [coords[-1][1], coords[0][1]]
             )
             # reconstruct polygon (ccw) with added coords on antimeridian
             # TODO potential problem if provided polygon has z-dimension
-- 
2.43.0

