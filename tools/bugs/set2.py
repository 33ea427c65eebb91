"""Planted bugs, second set (see tools/plant.py)."""
import os
import runpy
ISS = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "set1.py"))["ISS"]
BUGS = {
"track-unsorted-times": dict(property="C03",
  needs="an orbit with several TLEs propagated over a list of times that is not in ascending order",
  breaks="the closest-TLE indices are paired with the times as if the times were sorted",
  edits=[("schemas/orbit.py", "for i, t in zip(tle_i, times)", "for i, t in zip(np.sort(tle_i), times)")],
  demo=ISS + '''
from tatc.schemas import TwoLineElements
o = TwoLineElements(tle=tle(day="21150.00000000") + tle(day="21170.00000000", ma="200.0000"))
d = lambda k: datetime(2021, 1, 1, tzinfo=UTC) + timedelta(days=k - 1)
ts = [d(169), d(151)]
p = o.get_orbit_track(ts).position.km
for k, t in enumerate(ts):
    q = o.get_orbit_track(t).position.km
    assert np.allclose(p[:, k], q), (k, p[:, k], q)
'''),
"closest-tle-scalar-edge": dict(property="C03",
  needs="a single instant after the last epoch of an orbit with several TLEs whose list form is right",
  breaks="an instant later than every epoch by less than the gap between the last two picks the one before the last",
  edits=[("schemas/orbit.py", """                if idx > 0
                and (
                    idx == len(tle_epochs)
                    or abs(at_times - tle_epochs[idx - 1])
                    < abs(at_times - tle_epochs[idx])
                )
                else int(idx)
            )
        # handle vector""", """                if idx > 0
                and (
                    idx == len(tle_epochs)
                    or abs(at_times - tle_epochs[idx - 1])
                    < abs(tle_epochs[-1] - tle_epochs[idx - 1])
                )
                else int(idx)
            )
        # handle vector""")],
  demo=ISS + '''
from tatc.schemas import TwoLineElements
o = TwoLineElements(tle=tle(day="21150.00000000") + tle(day="21160.00000000") + tle(day="21170.00000000"))
d = lambda k: datetime(2021, 1, 1, tzinfo=UTC) + timedelta(days=k - 1)
for k in range(145, 176):
    if k % 10 == 5:
        continue
    assert o.get_closest_tle_index(d(k)) == o.get_closest_tle_index([d(k)])[0] == max(0, min(2, round((k - 150) / 10))), k
'''),
"molniya-eccentric-anomaly": dict(property="C04",
  needs="a Molniya orbit away from its perigee and apogee, converted to a TLE",
  breaks="the mean anomaly in the TLE of a Molniya orbit is the one of a circular orbit",
  edits=[("schemas/orbit.py", """        return utils.true_anomaly_to_mean_anomaly(
            self.true_anomaly, self.get_eccentricity()
        )""", """        return utils.true_anomaly_to_mean_anomaly(
            self.true_anomaly, getattr(self, "eccentricity", 0)
        )""")],
  demo='''
from tatc.schemas import MolniyaOrbit
from tatc.utils import true_anomaly_to_mean_anomaly
o = MolniyaOrbit(altitude=500000, inclination=63.4, perigee_argument=270, true_anomaly=60)
m = true_anomaly_to_mean_anomaly(60, o.get_eccentricity()) % 360
assert abs(o.get_mean_anomaly() % 360 - m) < 1e-6, (o.get_mean_anomaly(), m)
'''),
"derived-tle-drag": dict(property="C05",
  needs="a TLE with a second derivative of mean motion that differs from the first",
  breaks="the derived TLE loses the second derivative of the mean motion",
  edits=[("schemas/orbit.py", "lead_tle.nddot,", "lead_tle.nddot * lead_tle.ndot,")],
  demo=ISS + '''
from tatc.schemas import TwoLineElements
o = TwoLineElements(tle=tle(nddot=" 12345-4"))
d = o.get_derived_orbit(10, 20)
assert abs(d.get_second_derivative_mean_motion() - o.get_second_derivative_mean_motion()) < 1e-9, d.tle
'''),
"derived-tle-count": dict(property="C05",
  needs="an orbit with an odd number (three or more) of TLEs",
  breaks="the last TLEs of a longer list are not derived",
  edits=[("schemas/orbit.py", """        for i in range(self.get_tle_count()):
            # pylint: disable=E1136
            lead_tle""", """        for i in range(min(self.get_tle_count(), 2)):
            # pylint: disable=E1136
            lead_tle""")],
  demo=ISS + '''
from tatc.schemas import TwoLineElements
o = TwoLineElements(tle=tle(day="21150.00000000") + tle(day="21160.00000000") + tle(day="21170.00000000"))
d = o.get_derived_orbit(10, 20)
for i in range(3):
    x = (d.get_right_ascension_ascending_node(i) - o.get_right_ascension_ascending_node(i)) % 360
    assert abs(x - 20) < 1e-3, (i, x)
'''),
"repeat-cycle-unset": dict(property="C06",
  needs="a repeat cycle requested again with other tolerances while lazy loading is disabled",
  breaks="a remembered repeat cycle is reused although lazy loading was disabled, once it was found to be absent",
  edits=[("schemas/orbit.py", """        if lazy_load:
            repeat_cycle = self.__dict__.get("repeat_cycle")
        else:
            repeat_cycle = None
        if repeat_cycle is None:""", """        repeat_cycle = self.__dict__.get("repeat_cycle")
        if not lazy_load and repeat_cycle:
            repeat_cycle = None
        if repeat_cycle is None:""")],
  demo=ISS + '''
from tatc.schemas import TwoLineElements
o = TwoLineElements(tle=tle())
k = dict(max_search_duration=timedelta(days=4), min_elevation_angle=80)
assert o.get_repeat_cycle(max_delta_position=1e-3, lazy_load=False, **k) is None
n = TwoLineElements(tle=tle())
want = n.get_repeat_cycle(max_delta_position=1e9, max_delta_velocity=1e9, lazy_load=False, **k)
assert want is not None
assert o.get_repeat_cycle(max_delta_position=1e9, max_delta_velocity=1e9, lazy_load=False, **k) == want
'''),
"repeat-track-negative": dict(property="C07",
  needs="repeat-cycle tracks of a list of times some of which precede the epoch",
  breaks="times before the epoch in a list are evaluated after the epoch",
  edits=[("schemas/orbit.py", """                    offset = np.array(times) - epoch
                    repeat_times = constants.timescale.from_datetimes(
                        epoch
                        + np.sign(offset / timedelta(1))""", """                    offset = np.array(times) - epoch
                    repeat_times = constants.timescale.from_datetimes(
                        epoch
                        + np.sign(offset[-1] / timedelta(1))""")],
  demo=ISS + '''
from tatc.schemas import TwoLineElements
o = TwoLineElements(tle=tle())
o.__dict__["repeat_cycle"] = timedelta(days=1)
e = o.get_epoch()
ts = [e - timedelta(hours=30), e + timedelta(hours=30)]
p = o.get_orbit_track(ts, try_repeat=True).position.km
for k, t in enumerate(ts):
    assert np.allclose(p[:, k], o.get_orbit_track(t, try_repeat=True).position.km), k
'''),
"walker-shared-instruments": dict(property="C08",
  needs="changing an instrument of one member after generating the members of a Walker constellation",
  breaks="members of one plane share their instrument objects",
  edits=[("schemas/satellite.py", """                    (i // self.get_satellites_per_plane())
                    * self.get_delta_raan_between_planes(),
                ),
                instruments=copy.deepcopy(self.instruments),""",
  """                    (i // self.get_satellites_per_plane())
                    * self.get_delta_raan_between_planes(),
                ),
                instruments=copy.copy(self.instruments),""")],
  demo='''
from tatc.schemas import WalkerConstellation, CircularOrbit, Instrument
w = WalkerConstellation(name="W", orbit=CircularOrbit(altitude=500000, inclination=60), number_satellites=4,
                        number_planes=2, instruments=[Instrument(name="I", field_of_regard=20)])
m = w.generate_members()
m[0].instruments[0].field_of_regard = 90
assert m[1].instruments[0].field_of_regard == 20 and w.instruments[0].field_of_regard == 20
'''),
"walker-star-single": dict(property="C08",
  needs="a Walker star constellation whose last plane is not full",
  breaks="the number of planes used for the node spacing is the number of planes that the full planes would fill",
  edits=[("schemas/satellite.py", "        return 180 / self.number_planes",
          "        return 180 / math.ceil(self.number_satellites / self.get_satellites_per_plane())")],
  demo='''
from tatc.schemas import WalkerConstellation, CircularOrbit
w = WalkerConstellation(name="W", orbit=CircularOrbit(altitude=500000, inclination=60), number_satellites=9,
                        number_planes=4, configuration="star")
assert abs(w.get_delta_raan_between_planes() - 45) < 1e-9, w.get_delta_raan_between_planes()
w = WalkerConstellation(name="W", orbit=CircularOrbit(altitude=500000, inclination=60), number_satellites=10,
                        number_planes=6, configuration="star")
assert abs(w.get_delta_raan_between_planes() - 30) < 1e-9, w.get_delta_raan_between_planes()
'''),
"train-long-interval": dict(property="C09",
  needs="a train whose interval is negative or a day or longer",
  breaks="the node displacement uses only the seconds part of the interval",
  edits=[("schemas/satellite.py", "            return 360 * (self.interval / timedelta(days=1))",
          "            return 360 * (timedelta(seconds=self.interval.seconds) / timedelta(days=1))")],
  demo='''
from datetime import timedelta
from tatc.schemas import TrainConstellation, CircularOrbit
t = TrainConstellation(name="T", orbit=CircularOrbit(altitude=500000, inclination=60), number_satellites=2,
                       interval=timedelta(days=1, hours=1, milliseconds=500))
want = 360 * (t.interval / timedelta(days=1))
assert abs(t.get_delta_raan() - want) < 1e-9, (t.get_delta_raan(), want)
'''),
"mog-node-quadrant": dict(property="C10",
  needs="a mutual orbiting group around an equatorial reference orbit",
  breaks="the node of members beyond a quarter turn is folded into the first half turn",
  edits=[("schemas/satellite.py", """            omega = omega_0 + np.arctan2(
                np.dot(l, np.array([1, 0, 0])), np.dot(-l, np.array([0, 1, 0]))
            )""", """            omega = omega_0 + np.arctan(
                np.dot(l, np.array([1, 0, 0])) / np.dot(-l, np.array([0, 1, 0]))
            )""")],
  demo='''
import numpy as np
from tatc.schemas import MOGConstellation, CircularOrbit
def raans(inc):
    c = MOGConstellation(name="M", orbit=CircularOrbit(altitude=500000, inclination=inc, right_ascension_ascending_node=100),
                         parallel_axis=50000, transverse_axis=100000, number_satellites=8)
    return [(m.orbit.right_ascension_ascending_node - 100) % 360 for m in c.generate_members()]
r = np.radians(raans(0))
# around an equatorial orbit the nodes turn fully round
assert np.hypot(np.cos(r).mean(), np.sin(r).mean()) < 1e-3, np.degrees(r)
'''),
"soc-plane-spacing": dict(property="C10",
  needs="a streets-of-coverage constellation with packing below one",
  breaks="the spacing between planes ignores the packing distance",
  edits=[("schemas/satellite.py", "d_p = math.sqrt(3) * r_foot * self.packing_distance",
          "d_p = math.sqrt(3) * min(r_foot, d_f)")],
  demo='''
from tatc.schemas import SOCConstellation, CircularOrbit
def n(p):
    w = SOCConstellation(name="S", orbit=CircularOrbit(altitude=1000000, inclination=90), swath_width=2000000,
                         packing_distance=p).generate_walker()
    return w.number_planes, w.number_satellites // w.number_planes
assert abs(n(0.75)[0] / n(1.0)[0] - 1 / 0.75) < 0.15, (n(0.75), n(1.0))
'''),
"observation-roll-footprint": dict(property="C12",
  needs="a pointed instrument with both roll and pitch",
  breaks="the footprint that decides whether a target is seen ignores the elevation of a target below the datum",
  edits=[("analysis/coverage.py", "                    elevation=point.elevation,", "                    elevation=max(point.elevation, 0) * (not instrument.pitch_angle),")],
  demo='''
import numpy as np
from datetime import datetime, timedelta, timezone
from unittest import mock
import tatc.analysis.coverage as cov
from tatc.schemas import Satellite, PointedInstrument, Point, CircularOrbit
t0 = datetime(2022, 6, 1, tzinfo=timezone.utc)
i = PointedInstrument(name="P", cross_track_field_of_view=20, along_track_field_of_view=20, roll_angle=10, pitch_angle=5)
s = Satellite(name="S", orbit=CircularOrbit(altitude=500000, inclination=60, epoch=t0), instruments=[i])
seen = []
real = cov.compute_footprint
def spy(*a, **k):
    seen.append(k.get("elevation"))
    return real(*a, **k)
with mock.patch.object(cov, "compute_footprint", spy):
    cov.collect_observations(Point(id=0, latitude=30, longitude=20, elevation=4000), s, t0, t0 + timedelta(days=3))
assert seen and all(e == 4000 for e in seen), seen
'''),
"access-time-edge": dict(property="C12",
  needs="an instrument with a fixed access time shorter than the pass",
  breaks="the fixed access window is centred on the pass but one half is cut from the requested time",
  edits=[("analysis/coverage.py", "else period.mid + instrument.min_access_time / 2",
          "else period.left + instrument.min_access_time")],
  demo=ISS + '''
from tatc.schemas import TwoLineElements, Satellite, Instrument, Point
from tatc.analysis import collect_observations
i = Instrument(name="I", field_of_regard=120, min_access_time=timedelta(seconds=30), access_time_fixed=True)
s = Satellite(name="S", orbit=TwoLineElements(tle=tle()), instruments=[i])
t0 = s.orbit.get_epoch()
g = collect_observations(Point(id=0, latitude=40, longitude=-74), s, t0, t0 + timedelta(days=2))
assert len(g) > 0
for r in g.itertuples():
    assert abs((r.end - r.start).total_seconds() - 30) < 1e-3, r
'''),
"grid-latency-copy": dict(property="C18",
  needs="gridding an empty set of latencies onto cells that are used again afterwards",
  breaks="gridding nothing adds columns to the cells of the caller",
  edits=[("analysis/latency.py", """    if reduced_latencies.empty:
        gdf = cells.copy()""", """    if reduced_latencies.empty:
        gdf = cells""")],
  demo='''
from tatc.generation import generate_equally_spaced_cells
from tatc.analysis.latency import grid_latencies, _get_empty_reduce_frame
c = generate_equally_spaced_cells(5000000)
cols = list(c.columns)
grid_latencies(_get_empty_reduce_frame(), c)
assert list(c.columns) == cols, c.columns
'''),
"mask-crs-in-place": dict(property="C18",
  needs="normalizing a data frame and using the original again",
  breaks="sorting latencies sorts the observations of the caller",
  edits=[("analysis/latency.py", """    obs = pd.merge_asof(
        observations.sort_values(by="end"),""", """    observations.sort_values(by="end", inplace=True)
    obs = pd.merge_asof(
        observations,""")],
  demo='''
import pandas as pd, geopandas as gpd
from shapely.geometry import Point
from tatc.analysis.latency import compute_latencies
t = lambda m: pd.Timestamp("2022-06-01T00:00Z") + pd.Timedelta(minutes=m)
o = gpd.GeoDataFrame({"point_id": [1, 0], "satellite": ["S", "S"], "instrument": ["I", "I"], "start": [t(50), t(0)],
    "epoch": [t(51), t(1)], "end": [t(52), t(2)], "sat_alt": [50.0, 50.0], "sat_az": [0.0, 0.0], "geometry": [Point(0, 0)] * 2}, crs="EPSG:4326")
d = gpd.GeoDataFrame({"station": ["G"], "satellite": ["S"], "start": [t(60)], "epoch": [t(61)], "end": [t(62)],
    "geometry": [Point(0, 0)]}, crs="EPSG:4326")
before = list(o.point_id)
compute_latencies(o, d)
assert list(o.point_id) == before, o
'''),
"empty-solar-columns": dict(property="C17",
  needs="a coverage result without observations that asks for solar columns",
  breaks="the empty coverage table lacks the local solar time column",
  edits=[("analysis/coverage.py", """                "solar_time": pd.Series(dtype="float"),
""", "")],
  demo=ISS + '''
from tatc.schemas import TwoLineElements, Satellite, Instrument, Point
from tatc.analysis import collect_observations
s = Satellite(name="S", orbit=TwoLineElements(tle=tle()), instruments=[Instrument(name="I", field_of_regard=120)])
t0 = s.orbit.get_epoch()
p = Point(id=0, latitude=89, longitude=0)
e = collect_observations(p, s, t0, t0 + timedelta(hours=1), omit_solar=False)
assert len(e) == 0 and "solar_time" in e.columns, e.columns
'''),
"pixel-altaz-index": dict(property="C24",
  needs="ground pixels with look angles over several instants that were culled by a mask",
  breaks="look angles use the instant at the position of the record's time in the unculled list",
  edits=[("analysis/track.py", "orbit_track[list(orbit_track.t.utc_datetime()).index(record[\"time\"])]",
          "orbit_track[min(len(orbit_track.t) - 1, records.index(record) * len(orbit_track.t) // len(records))]")],
  demo=ISS + '''
print("placeholder")
raise SystemExit(0)
'''),
"ground-track-center-elevation": dict(property="C24",
  needs="a ground track at an elevation other than zero",
  breaks="the target whose validity and look angles are reported lies on the datum instead of the given elevation",
  edits=[("analysis/track.py", "target = instrument.compute_footprint_center(orbit_track, elevation)",
          "target = instrument.compute_footprint_center(orbit_track)")],
  demo=ISS + '''
from tatc.schemas import TwoLineElements, Satellite, PointedInstrument
from tatc.analysis import collect_ground_track
i = PointedInstrument(name="P", cross_track_field_of_view=10, along_track_field_of_view=10, roll_angle=40)
s = Satellite(name="S", orbit=TwoLineElements(tle=tle()), instruments=[i])
t0 = s.orbit.get_epoch()
ts = [t0 + timedelta(minutes=k) for k in range(3)]
g = collect_ground_track(s, ts, elevation=5000, sat_altaz=True)
track = s.orbit.get_orbit_track(ts)
target = i.compute_footprint_center(track, 5000)
want = (track - target.at(track.t)).altaz()[0].degrees
assert np.allclose(g.sat_alt, want, atol=1e-6), (g.sat_alt, want)
'''),
"ground-track-time-step": dict(property="C24",
  needs="a masked ground track over unevenly spaced or descending times",
  breaks="the mask buffer is derived from the shortest time step",
  edits=[],
  demo=""),
"line-validity-runs": dict(property="C25",
  needs="a line ground track whose instrument is invalid for a stretch within one orbit",
  breaks="two valid stretches of an orbit are joined across the invalid stretch between them",
  edits=[("analysis/track.py", """(track.valid_obs != track.valid_obs.shift()).astype("int").cumsum()""",
          """(track.orbit_id != track.orbit_id.shift()).astype("int").cumsum()""")],
  demo=ISS + '''
from unittest import mock
from tatc.schemas import TwoLineElements, Satellite, Instrument
from tatc.analysis import compute_ground_track
i = Instrument(name="I", field_of_regard=20)
s = Satellite(name="S", orbit=TwoLineElements(tle=tle()), instruments=[i])
t0 = s.orbit.get_epoch()
ts = [t0 + timedelta(minutes=k) for k in range(12)]
valid = np.array([True] * 4 + [False] * 4 + [True] * 4)
with mock.patch.object(Instrument, "is_valid_observation", lambda self, o, t=None: valid):
    g = compute_ground_track(s, ts, method="line", dissolve_orbits=False)
assert len(g) == 2, len(g)
'''),
"point-orbit-first-valid": dict(property="C25",
  needs="a ground track by points that a mask cuts so that the first instants are not in it",
  breaks="orbits are counted from the first retained footprint",
  edits=[("analysis/track.py", """            track["orbit_id"] = [
                (time - times[0]) // satellite.orbit.to_tle().get_orbit_period()
                for time in track.time
            ]
            # filter""", """            track["orbit_id"] = [
                (time - track.time.iloc[0]) // satellite.orbit.to_tle().get_orbit_period()
                for time in track.time
            ]
            # filter""")],
  demo=ISS + '''
from shapely.geometry import box
from tatc.schemas import TwoLineElements, Satellite, Instrument
from tatc.analysis import collect_ground_track, compute_ground_track
i = Instrument(name="I", field_of_regard=20)
s = Satellite(name="S", orbit=TwoLineElements(tle=tle()), instruments=[i])
t0 = s.orbit.get_epoch()
ts = [t0 + timedelta(minutes=k) for k in range(0, 300)]
P = s.orbit.get_orbit_period()
bad = 0
for lo in range(-180, 180, 20):
    mask = box(lo, -50, lo + 20, 50)
    a = collect_ground_track(s, ts, mask=mask)
    if a.empty: continue
    want = len({(t - ts[0]) // P for t in a.time})
    g = compute_ground_track(s, ts, mask=mask, dissolve_orbits=False)
    bad += len(g) != want
assert bad == 0, bad
'''),
"grid-theta-latitude": dict(property="C29",
  needs="an internal caller or angular grid with different steps in longitude and latitude",
  breaks="the latitude range of the index grid is divided by the longitude step",
  edits=[("generation/points.py", """    return [
        (i, j)
        for j in range(
            int(np.round((min_latitude + 90) / theta_latitude)),""", """    return [
        (i, j)
        for j in range(
            int(np.round((min_latitude + 90) / theta_longitude)),""")],
  demo='''
from shapely.geometry import box
from tatc.generation import _generate_equally_spaced_points
g = _generate_equally_spaced_points(2, 5, mask=box(0, 20, 20, 40))
assert len(g) == 10 * 4 and g.geometry.y.min() > 20, (len(g), g.geometry.y.min())
'''),
"footprint-center-roll": dict(property="C20",
  needs="a rolled pointed instrument with pitch, over a footprint centre at an elevation",
  breaks="the centre of the footprint of a rolled and pitched instrument mirrors the roll",
  edits=[], demo=""),
}
BUGS = {k: v for k, v in BUGS.items() if v["edits"] and "placeholder" not in v["demo"]}
