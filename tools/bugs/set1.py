ISS = '''
from datetime import datetime, timedelta, timezone
import numpy as np
UTC = timezone.utc
def _ck(line):
    return line + str(sum(int(c) if c.isdigit() else c == "-" for c in line) % 10)
def tle(day="21156.30527927", raan="70.9259", ma="113.2620", inc="51.6455", ecc="0003508", per="246.8253",
        n="15.48975366", rev="28623", ndot=" .00003432", nddot=" 00000-0", bstar=" 70541-4", eph="0", num=" 999", cat="25544"):
    a = "1 %sU 98067A   %s %s %s %s %s %s" % (cat, day, ndot, nddot, bstar, eph, num)
    b = "2 %s %8s %8s %s %8s %8s %s%s" % (cat, inc, raan, ecc, per, ma, n, rev)
    return [_ck(a), _ck(b)]
'''
BUGS = {
"tle-bstar-column": dict(property="C01",
  needs="a TLE whose b-star mantissa is negative, which the recent TLEs in the tests do not have",
  breaks="the sign column of the b-star term is read from the blank separator, so negative b-star terms come out positive",
  edits=[("schemas/orbit.py", 'self.tle[2 * tle_i][53] + "0." + self.tle[2 * tle_i][54:59].strip()',
          'self.tle[2 * tle_i][52] + "0." + self.tle[2 * tle_i][54:59].strip()')],
  demo=ISS + '''
from tatc.schemas import TwoLineElements
o = TwoLineElements(tle=tle(bstar="-11606-4"))
assert abs(o.get_b_star() + 0.11606e-4) < 1e-12, o.get_b_star()
o = TwoLineElements(tle=tle())
assert abs(o.get_b_star() - 0.70541e-4) < 1e-12
'''),
"tle-period-index": dict(property="C01",
  needs="an orbit with several TLEs of different mean motion, read at an index other than zero",
  breaks="the period always comes from the first TLE of the list",
  edits=[("schemas/orbit.py", "return timedelta(days=1 / self.get_mean_motion(tle_i))",
          "return timedelta(days=1 / self.get_mean_motion())")],
  demo=ISS + '''
from tatc.schemas import TwoLineElements
o = TwoLineElements(tle=tle() + tle(day="21160.30527927", n="15.10000000"))
assert abs(o.get_orbit_period(1) / timedelta(days=1) - 1 / 15.1) < 1e-9, o.get_orbit_period(1)
'''),
"tle-chronology-adjacent": dict(property="C02",
  needs="three or more TLEs whose last epoch is after the first but which are out of order in between",
  breaks="out-of-order TLE lists are accepted as long as no epoch precedes the first",
  edits=[("utils.py", "if not all(epochs[:-1] <= epochs[1:]):", "if not all(epochs[:1] <= epochs[1:]):")],
  demo=ISS + '''
from tatc.schemas import TwoLineElements
try:
    TwoLineElements(tle=tle() + tle(day="21162.30527927") + tle(day="21159.30527927"))
except ValueError:
    pass
else:
    raise AssertionError("out-of-order TLEs accepted")
'''),
"closest-tle-midpoint": dict(property="C03",
  needs="a window over several TLEs that starts after the first midpoint between epochs",
  breaks="the partition of a window uses the TLE before each midpoint instead of the one after it",
  edits=[("schemas/orbit.py", "+ [int(tle_i[i + 1]) for i in midpoint_indices]",
          "+ [int(tle_i[k + 1]) for k, _ in enumerate(midpoint_indices)]")],
  demo=ISS + '''
from tatc.schemas import TwoLineElements
o = TwoLineElements(tle=tle(day="21150.00000000") + tle(day="21160.00000000") + tle(day="21170.00000000") + tle(day="21180.00000000"))
d = lambda k: datetime(2021, 1, 1, tzinfo=UTC) + timedelta(days=k - 1)
ts, ks = o.partition_by_tle_index(d(158), d(178))
for i in range(len(ts) - 1):
    mid = ts[i] + (ts[i + 1] - ts[i]) / 2
    assert ks[i] == o.get_closest_tle_index(mid), (ts, ks)
'''),
"keplerian-derived-anomaly": dict(property="C05",
  needs="deriving an eccentric Keplerian orbit whose perigee and anomaly are such that the offset matters",
  breaks="the derived anomaly is converted as if the orbit were circular",
  edits=[("schemas/orbit.py", """            np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360),
            eccentricity=self.eccentricity,
        )""", """            np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360),
        )""")],
  demo='''
from tatc.schemas import KeplerianOrbit
o = KeplerianOrbit(altitude=1000000, inclination=50, eccentricity=0.05, perigee_argument=30, true_anomaly=40,
                   right_ascension_ascending_node=10)
d = o.get_derived_orbit(75, 20)
assert abs((d.get_mean_anomaly() - o.get_mean_anomaly()) % 360 - 75) < 1e-2, d.get_mean_anomaly() - o.get_mean_anomaly()
'''),
"repeat-events-window": dict(property="C07",
  needs="observation events over more than one repeat cycle with the repeat option and a pass in the last partial cycle",
  breaks="events after the end of the requested window are reported, up to the end of the last whole cycle",
  edits=[("schemas/orbit.py", """                    constants.timescale.from_datetimes(times_py[times_py <= end]),
                    events_py[times_py <= end],""",
  """                    constants.timescale.from_datetimes(times_py[times_py >= start]),
                    events_py[times_py >= start],""")],
  demo=ISS + '''
from tatc.schemas import TwoLineElements, Point
o = TwoLineElements(tle=tle())
o.__dict__["repeat_cycle"] = timedelta(days=1)
s = o.get_epoch()
e = s + timedelta(days=1, hours=6)
t, ev = o.get_observation_events(Point(id=0, latitude=40, longitude=-74), s, e, 5, try_repeat=True)
assert len(t) == len(ev) and len(t) > 0
assert all(x <= e for x in t.utc_datetime()), max(t.utc_datetime())
'''),
"walker-phasing-planes": dict(property="C08",
  needs="a Walker constellation whose planes are phased (F > 0) and hold more than one satellite",
  breaks="the phase difference between planes uses the number of planes instead of the number of satellites",
  edits=[("schemas/satellite.py", """                    + (i // self.get_satellites_per_plane())
                    * self.get_delta_mean_anomaly_between_planes(),""",
  """                    + np.mod(i // self.get_satellites_per_plane(), self.number_planes - 1 or 1)
                    * self.get_delta_mean_anomaly_between_planes(),""")],
  demo='''
from tatc.schemas import WalkerConstellation, CircularOrbit
w = WalkerConstellation(name="W", orbit=CircularOrbit(altitude=500000, inclination=60, true_anomaly=0),
                        number_satellites=12, number_planes=4, relative_spacing=2)
m = w.generate_members()
for k in range(1, 4):
    d = (m[3 * k].orbit.true_anomaly - m[0].orbit.true_anomaly) % 360
    assert abs(d - (k * 60) % 360) < 1e-6, (k, d)
'''),
"train-raan-members": dict(property="C09",
  needs="a train of three or more satellites that repeat the ground track",
  breaks="the node of the third and later members is displaced as for the second",
  edits=[("schemas/satellite.py", "i * self.get_delta_mean_anomaly(), i * self.get_delta_raan()",
          "i * self.get_delta_mean_anomaly(), min(i, 1) * self.get_delta_raan()")],
  demo='''
from datetime import timedelta
from tatc.schemas import TrainConstellation, CircularOrbit
t = TrainConstellation(name="T", orbit=CircularOrbit(altitude=500000, inclination=60), number_satellites=4,
                       interval=timedelta(minutes=20))
m = t.generate_members()
for k in range(4):
    d = (m[k].orbit.right_ascension_ascending_node - t.orbit.right_ascension_ascending_node) % 360
    assert abs(d - (5 * k) % 360) < 1e-6, (k, d)
'''),
"visible-edge-set": dict(property="C11",
  needs="a window that starts during a pass, so that its first event is a set, and later contains whole passes",
  breaks="the pass in progress at the window start is dropped when other passes follow",
  edits=[("analysis/coverage.py", "and (len(rises) == 0 or sets[0].utc_datetime() < rises[0].utc_datetime())",
          "and (len(rises) == 0 or sets[-1].utc_datetime() < rises[0].utc_datetime())")],
  demo=ISS + '''
from tatc.schemas import TwoLineElements, Satellite, Instrument, Point
from tatc.analysis.coverage import _get_visible_interval_series
s = Satellite(name="S", orbit=TwoLineElements(tle=tle()), instruments=[Instrument(name="I")])
p = Point(id=0, latitude=40, longitude=-74)
t0 = s.orbit.get_epoch()
full = _get_visible_interval_series(p, s, 5, t0, t0 + timedelta(days=1))
assert len(full) > 2
mid = full[0].mid.to_pydatetime()
part = _get_visible_interval_series(p, s, 5, mid, t0 + timedelta(days=1))
assert len(part) == len(full), (len(part), len(full))
assert abs((part[0].right - full[0].right).total_seconds()) < 1
'''),
"aggregate-nested": dict(property="C14",
  needs="an observation nested in a longer one and followed by one that overlaps only the longer one",
  breaks="grouping compares with the previous row's end only, splitting a chain of overlaps",
  edits=[("analysis/coverage.py", """gdf["obs"] = (gdf["start"] > gdf["end"].shift().cummax()).cumsum()""",
          """gdf["obs"] = (gdf["start"] > gdf["end"].shift()).cumsum()""")],
  demo='''
import pandas as pd, geopandas as gpd
from shapely.geometry import Point
from tatc.analysis import aggregate_observations
t = lambda m: pd.Timestamp("2022-01-01", tz="UTC") + pd.Timedelta(minutes=m)
rows = [(0, 30), (5, 10), (20, 40), (60, 70)]
g = gpd.GeoDataFrame([{"point_id": 1, "geometry": Point(0, 0, 0), "satellite": "S%d" % i, "instrument": "I",
   "start": t(a), "end": t(b), "epoch": t((a + b) / 2), "sat_alt": 1.0, "sat_az": 1.0} for i, (a, b) in enumerate(rows)],
   crs="EPSG:4326")
a = aggregate_observations(g)
assert len(a) == 2 and a.end[0] == t(40), a
'''),
"downlink-during": dict(property="C16",
  needs="an observation that ends exactly when, or after, a downlink of its satellite starts",
  breaks="observations are matched by their start, so a downlink that begins before the observation ends is used",
  edits=[("analysis/latency.py", """        observations.sort_values(by="end"),""", """        observations.sort_values(by="start").rename(columns={"start": "t"}),"""),
         ("analysis/latency.py", """        left_on="end",""", """        left_on="t","""),],
  demo='''
import pandas as pd, geopandas as gpd
from shapely.geometry import Point
from tatc.analysis import compute_latencies
t = lambda m: pd.Timestamp("2022-01-01", tz="UTC") + pd.Timedelta(minutes=m)
o = gpd.GeoDataFrame([{"point_id": 1, "geometry": Point(0, 0, 0), "satellite": "S", "instrument": "I",
   "start": t(0), "end": t(10), "epoch": t(5), "sat_alt": 1.0, "sat_az": 1.0}], crs="EPSG:4326")
d = gpd.GeoDataFrame([{"station": "A", "geometry": Point(0, 0, 0), "satellite": "S", "start": t(a), "end": t(b),
   "epoch": t((a + b) / 2)} for a, b in [(4, 8), (20, 30)]], crs="EPSG:4326")
r = compute_latencies(o, d)
assert r.latency[0] == pd.Timedelta(minutes=20), r
'''),
"empty-latency-column": dict(property="C17",
  needs="latencies computed from observations without any downlink in the window",
  breaks="the empty latency table lacks the satellite azimuth column",
  edits=[("analysis/latency.py", """        "sat_az": pd.Series([], dtype="float"),
        "observed": """, """        "observed": """)],
  demo='''
import pandas as pd, geopandas as gpd
from shapely.geometry import Point
from tatc.analysis import compute_latencies
from tatc.analysis.latency import _get_empty_downlinks_frame
t = lambda m: pd.Timestamp("2022-01-01", tz="UTC") + pd.Timedelta(minutes=m)
o = gpd.GeoDataFrame([{"point_id": 1, "geometry": Point(0, 0, 0), "satellite": "S", "instrument": "I",
   "start": t(0), "end": t(10), "epoch": t(5), "sat_alt": 1.0, "sat_az": 1.0}], crs="EPSG:4326")
d = gpd.GeoDataFrame([{"station": "A", "geometry": Point(0, 0, 0), "satellite": "S", "start": t(20), "end": t(30),
   "epoch": t(25)}], crs="EPSG:4326")
assert set(compute_latencies(o, d.iloc[:0]).columns) == set(compute_latencies(o, d).columns)
'''),
"reduce-in-place": dict(property="C18",
  needs="using the aggregated table again after reducing it",
  breaks="reduction converts the columns of the caller's table",
  edits=[("analysis/coverage.py", "gdf = aggregated_observations.copy()", "gdf = aggregated_observations")],
  demo='''
import pandas as pd, geopandas as gpd
from shapely.geometry import Point
from tatc.analysis import aggregate_observations, reduce_observations
t = lambda m: pd.Timestamp("2022-01-01", tz="UTC") + pd.Timedelta(minutes=m)
rows = [(0, 30), (60, 70)]
g = gpd.GeoDataFrame([{"point_id": 1, "geometry": Point(0, 0, 0), "satellite": "S%d" % i, "instrument": "I",
   "start": t(a), "end": t(b), "epoch": t((a + b) / 2), "sat_alt": 1.0, "sat_az": 1.0} for i, (a, b) in enumerate(rows)],
   crs="EPSG:4326")
a = aggregate_observations(g)
b = a.copy()
reduce_observations(a)
assert list(a.columns) == list(b.columns) and (a.access == b.access).all(), a
'''),
"fov-swath-elevation": dict(property="C19",
  needs="a target above the datum seen off nadir",
  breaks="one edge of the swath is measured on the datum instead of at the target elevation",
  edits=[("utils.py", """    sin_lambda_2 = np.sin(
        _lambda + (swath_width / 2) / (constants.EARTH_MEAN_RADIUS + elevation)""",
  """    sin_lambda_2 = np.sin(
        _lambda + (swath_width / 2) / constants.EARTH_MEAN_RADIUS""")],
  demo='''
from tatc import utils
# at nadir the two edges are symmetric, whatever the elevation
a = utils.swath_width_to_field_of_view(600e3, 200e3, 0.0, 9000.0)
b = utils.swath_width_to_field_of_regard(600e3, 200e3, 9000.0)
assert abs(a - b) < 1e-9, (a, b)
'''),
"pixel-aft-order": dict(property="C20",
  needs="an instrument with several pixels in the along-track direction",
  breaks="along-track pixels run from aft to fore",
  edits=[("schemas/instrument.py", "(self.along_track_pixels / 2 - 0.5 - along_track_index)",
          "(0.5 + along_track_index - self.along_track_pixels / 2)")],
  demo='''
import numpy as np
from tatc.schemas import PointedInstrument
i = PointedInstrument(name="I", cross_track_field_of_view=10, along_track_field_of_view=8, is_rectangular=True,
                      cross_track_pixels=1, along_track_pixels=4)
clocks = [i.get_pixel_cone_and_clock_angle(0, j)[1] for j in range(4)]
assert np.allclose(clocks, [np.pi / 2, np.pi / 2, -np.pi / 2, -np.pi / 2]), clocks
'''),
"limb-elevation": dict(property="C21",
  needs="a ray that misses the Earth, with a target elevation well above the datum",
  breaks="the limb is computed for the datum instead of the raised ellipsoid on the polar axis",
  edits=[("utils.py", """            limb = edlimb(
                constants.EARTH_EQUATORIAL_RADIUS + elevation,
                constants.EARTH_EQUATORIAL_RADIUS + elevation,
                constants.EARTH_POLAR_RADIUS + elevation,""",
  """            limb = edlimb(
                constants.EARTH_EQUATORIAL_RADIUS + elevation,
                constants.EARTH_EQUATORIAL_RADIUS + elevation,
                constants.EARTH_POLAR_RADIUS,""")],
  demo='''
import numpy as np
from datetime import datetime, timezone
from tatc.schemas import CircularOrbit
from tatc.utils import compute_projected_ray_position
o = CircularOrbit(altitude=600000, inclination=85, true_anomaly=60, epoch=datetime(2021, 1, 1, tzinfo=timezone.utc)).to_tle()
tr = o.get_orbit_track(o.get_epoch())
g = compute_projected_ray_position(tr, 170, 170, 0, 0, False, np.pi / 2, 50000.0)
assert abs(g.elevation.m - 50000) < 400, g.elevation.m
'''),
"polar-holes": dict(property="C22",
  needs="a polygon with a hole beyond the north pole",
  breaks="holes are kept at latitudes above 90 degrees when the polygon is wrapped over the pole",
  edits=[("utils.py", """                        c[0] + lat_shift if c[1] >= 90 else c[0],
                        180 - c[1] if c[1] >= 90 else c[1],
                    ]
                    for c in i.coords
                ]
                for i in polygon.interiors
            ],""", """                        c[0] + lat_shift if c[1] > 90 else c[0],
                        180 - c[1] if c[1] > 100 else c[1],
                    ]
                    for c in i.coords
                ]
                for i in polygon.interiors
            ],""")],
  demo='''
from shapely.geometry import Polygon
from tatc.utils import split_polygon
p = Polygon([(10, 80), (50, 80), (50, 100), (10, 100)], [[(20, 92), (30, 92), (30, 98), (20, 98)]])
q = split_polygon(p)
assert q.is_valid and abs(q.area - p.area) < 1e-6 and q.bounds[3] <= 90, (q.area, p.area, q.bounds)
'''),
"eci-velocity-frame": dict(property="C23",
  needs="an inertial orbit track with velocity output",
  breaks="positions are inertial but velocities Earth-fixed",
  edits=[("analysis/track.py", "        if coordinates == OrbitCoordinate.ECI:\n            velocities",
          "        if coordinates != OrbitCoordinate.ECEF and orbit_output == OrbitOutput.POSITION:\n            velocities")],
  demo=ISS + '''
from tatc.schemas import TwoLineElements, Satellite, Instrument
from tatc.analysis import collect_orbit_track, OrbitCoordinate, OrbitOutput
s = Satellite(name="S", orbit=TwoLineElements(tle=tle()), instruments=[Instrument(name="I")])
t = [s.orbit.get_epoch() + timedelta(seconds=k) for k in (0, 1, 2)]
r = collect_orbit_track(s, t, coordinates=OrbitCoordinate.ECI, orbit_output=OrbitOutput.POSITION_VELOCITY)
x = np.array([[p.x, p.y, p.z] for p in r.geometry])
v = np.array([[p.x, p.y, p.z] for p in r.velocity])
assert np.linalg.norm((x[2] - x[0]) / 2 - v[1]) < 20, (x[2] - x[0], v[1])
'''),
"occultation-sample": dict(property="C26",
  needs="an arc whose sample nearest to the requested height is not the lowest one",
  breaks="the sample is the lowest point of the arc for requested heights above the datum",
  edits=[("analysis/ro_coverage.py", """                    key=lambda i: abs(
                        o["points"][i]["tangent_point"].elevation.m - sample_elevation
                    ),""", """                    key=lambda i: abs(o["points"][i]["tangent_point"].elevation.m)
                    - sample_elevation,""")],
  demo=ISS + '''
from tatc.schemas import TwoLineElements, Satellite, Instrument, CircularOrbit
from tatc.analysis import collect_ro_observations
e = datetime(2021, 6, 5, tzinfo=UTC)
rx = Satellite(name="R", orbit=CircularOrbit(altitude=500e3, inclination=60, epoch=e), instruments=[Instrument(name="I")])
tx = [Satellite(name="T%d" % k, orbit=CircularOrbit(altitude=20200e3, inclination=55, epoch=e, true_anomaly=45 * k,
      right_ascension_ascending_node=60 * k % 360), instruments=[Instrument(name="I")]) for k in range(6)]
t = [e + timedelta(seconds=10 * k) for k in range(540)]
r = collect_ro_observations(rx, tx, t, sample_elevation=40e3)
assert len(r) > 0
for _, o in r.iterrows():
    z = [p.z for p in o.geometry.geoms]
    assert abs(abs(o.position.z - 40e3) - min(abs(v - 40e3) for v in z)) < 1e-6, (o.position.z, z)
'''),
"dop-hdop-swap": dict(property="C27",
  needs="vertical dilution of precision with more than four satellites in an asymmetric sky",
  breaks="vertical dilution uses the squared east-west element",
  edits=[("analysis/dop.py", "return np.sqrt(H_inv[2, 2])", "return np.sqrt(H_inv[-2, 1])")],
  demo='''
from datetime import datetime, timedelta, timezone
import numpy as np
from tatc.schemas import Satellite, Instrument, CircularOrbit, Point
from tatc.analysis import compute_dop, DopMethod
e = datetime(2021, 6, 5, tzinfo=timezone.utc)
sats = [Satellite(name="T%d" % k, orbit=CircularOrbit(altitude=20200e3, inclination=55, epoch=e, true_anomaly=45 * k % 360,
      right_ascension_ascending_node=60 * k % 360), instruments=[Instrument(name="I")]) for k in range(30)]
t = [e + timedelta(minutes=k) for k in range(3)]
p = Point(id=0, latitude=33, longitude=-112)
d = {m: compute_dop(t, p, sats, 10, m).dop.values for m in DopMethod}
assert np.all(np.isfinite(d[DopMethod.GDOP]))
assert np.allclose(d[DopMethod.PDOP] ** 2, d[DopMethod.HDOP] ** 2 + d[DopMethod.VDOP] ** 2), d
'''),
"fibonacci-masked-ids": dict(property="C28",
  needs="identifiers of lattice points generated with a mask that does not start at the south pole",
  breaks="identifiers of masked points count from zero instead of being the lattice index",
  edits=[("generation/points.py", """            "point_id": indices,
            "geometry": [
                Point(
                    (""", """            "point_id": range(len(indices)),
            "geometry": [
                Point(
                    (""")],
  demo='''
from shapely.geometry import box
from tatc.generation import generate_fibonacci_lattice_points as g
a = g(2000e3).set_index("point_id")
b = g(2000e3, mask=box(-60, 0, 60, 60))
assert len(b) > 0
for _, r in b.iterrows():
    q = a.loc[r.point_id].geometry
    assert abs(q.x - r.geometry.x) < 1e-9 and abs(q.y - r.geometry.y) < 1e-9, r.point_id
'''),
"cell-id-wrap": dict(property="C29",
  needs="cells of a spacing that does not divide 360 degrees evenly",
  breaks="identifiers are not unique: the number of columns is rounded down, so two columns share identifiers",
  edits=[("generation/points.py", "number_i = int(np.round(360 / theta_i))", "number_i = int(360 // theta_i)")],
  demo='''
from tatc.generation import generate_equally_spaced_cells, generate_equally_spaced_points
for d in (5000e3, 3000e3, 1700e3, 2600e3):
    c = generate_equally_spaced_cells(d)
    assert c.cell_id.is_unique, (d, len(c), c.cell_id.nunique())
'''),
"footprint-points-import": dict(property="C30",
  needs="changing the configured number of footprint points after import, then using a rectangular view",
  breaks="the rectangular footprint setting is read once, from the elliptical setting's position, when first used",
  edits=[("utils.py", "            number_points = config.rc.footprint_points_rectangular_side",
          "            number_points = config.rc.footprint_points_elliptical // 4")],
  demo=ISS + '''
from tatc import config
from tatc.schemas import TwoLineElements
from tatc.utils import compute_footprint
o = TwoLineElements(tle=tle())
tr = o.get_orbit_track(o.get_epoch())
config.rc.footprint_points_rectangular_side = 5
f = compute_footprint(tr, 10, 10, is_rectangular=True)
assert len(f.exterior.coords) == 21, len(f.exterior.coords)
'''),
"instrument-for-limit": dict(property="C31",
  needs="an instrument with a field of regard above 180 degrees or exactly 360 degrees",
  breaks="fields of regard of 360 degrees, documented as allowed, are rejected",
  edits=[("schemas/instrument.py", "        gt=0,\n        le=360,", "        gt=0,\n        lt=360,")],
  demo='''
from tatc.schemas import Instrument
Instrument(name="I", field_of_regard=360)
try:
    Instrument(name="I", field_of_regard=361)
except ValueError:
    pass
else:
    raise AssertionError
'''),
}
