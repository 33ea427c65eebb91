"""Planted bugs, third set (see tools/plant.py)."""
import os
import runpy
ISS = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "set1.py"))["ISS"]
MULTI = ISS + '''
import pandas as pd
from tatc.schemas import Satellite, TrainConstellation, Instrument, Point, TwoLineElements, KeplerianOrbit, CircularOrbit
from tatc.analysis import collect_observations, collect_multi_observations
E = datetime(2021, 6, 5, 7, 19, 36, tzinfo=UTC)
pt = Point(id=3, latitude=10, longitude=20)
'''
FRAME = '''
import pandas as pd
import geopandas as gpd
import numpy as np
from datetime import datetime, timedelta, timezone
from shapely.geometry import Point, box
t = lambda m: datetime(2021, 6, 1, tzinfo=timezone.utc) + timedelta(minutes=m)
def agg(rows):
    return gpd.GeoDataFrame([{"point_id": p, "satellite": "s", "instrument": "i", "start": t(a), "epoch": t(a), "end": t(a) + x,
        "access": x, "revisit": r, "geometry": Point(p, 0)} for p, a, x, r in rows], crs="EPSG:4326")
S = lambda x: pd.Timedelta(seconds=x)
'''
BUGS = {
"multi-twin-instruments": dict(property="C13",
  needs="a satellite carrying two instruments whose observations of a point coincide",
  breaks="coinciding observations by two instruments of a satellite are taken for duplicates and one is dropped",
  edits=[("analysis/coverage.py", """    return pd.concat(gdfs).sort_values("start").reset_index(drop=True)""",
          """    gdf = pd.concat(gdfs).drop_duplicates(["satellite", "start", "end"])
    return gdf.sort_values("start").reset_index(drop=True)""")],
  demo=MULTI + '''
sat = Satellite(name="s", orbit=TwoLineElements(tle=tle()), instruments=[Instrument(name="a"), Instrument(name="b")])
r = collect_multi_observations(pt, sat, E, E + timedelta(days=1))
a = collect_observations(pt, sat, E, E + timedelta(days=1), 0)
assert len(a) > 0 and len(r) == 2 * len(a), (len(r), len(a))
assert sorted(r.instrument) == ["a"] * len(a) + ["b"] * len(a)
assert r.start.is_monotonic_increasing
'''),
"multi-sort-order": dict(property="C13",
  needs="two observations of a point where the later one ends first",
  breaks="the union is ordered by the end rather than the start of the observations",
  edits=[("analysis/coverage.py", """    return pd.concat(gdfs).sort_values("start").reset_index(drop=True)""",
          """    return pd.concat(gdfs).sort_values("end").reset_index(drop=True)""")],
  demo=MULTI + '''
sat = Satellite(name="s", orbit=TwoLineElements(tle=tle()), instruments=[Instrument(name="a"), Instrument(name="b", field_of_regard=100)])
r = collect_multi_observations(pt, sat, E, E + timedelta(days=3))
assert set(r.instrument) == {"a", "b"}
assert r.start.is_monotonic_increasing, r[["instrument", "start", "end"]]
assert list(r.index) == list(range(len(r)))
'''),
"occultation-empty-time": dict(property="C17",
  needs="a radio occultation analysis that finds nothing, next to one that finds something",
  breaks="the empty occultation table lacks the sample time column",
  edits=[("analysis/ro_coverage.py", """        "end": pd.Series([], dtype="datetime64[ns, utc]"),
        "time": pd.Series([], dtype="datetime64[ns, utc]"),
    }""", """        "end": pd.Series([], dtype="datetime64[ns, utc]"),
    }""")],
  demo=ISS + '''
from tatc.schemas import Satellite, CircularOrbit
from tatc.analysis import collect_ro_observations
E = datetime(2021, 6, 1, tzinfo=UTC)
rx = Satellite(name="rx", orbit=CircularOrbit(altitude=500000, inclination=60, epoch=E))
tx = Satellite(name="tx", orbit=CircularOrbit(altitude=20200000, inclination=55, epoch=E))
a = collect_ro_observations(rx, tx, [E + timedelta(seconds=30 * k) for k in range(400)])
b = collect_ro_observations(rx, tx, [E], max_yaw=1e-6)
assert len(a) > 0 and len(b) == 0
assert set(a.columns) == set(b.columns), set(a.columns) ^ set(b.columns)
'''),
"lazy-tle-keplerian": dict(property="C06",
  needs="a circular orbit converted with lazy loading, changed, and converted again with lazy loading switched off in the settings",
  breaks="the setting is consulted only when no conversion is stored",
  edits=[("schemas/orbit.py", """        if lazy_load is None:
            lazy_load = config.rc.orbit_tle_lazy_load
        if lazy_load:
            tle = self.__dict__.get("tle")
        else:
            tle = None
        if tle is None:
            tle = KeplerianOrbit(
                altitude=self.altitude,
                true_anomaly=self.true_anomaly,
                epoch=self.epoch,
                inclination=self.inclination,
                right""", """        if lazy_load is None:
            lazy_load = config.rc.orbit_tle_lazy_load or "tle" in self.__dict__
        if lazy_load:
            tle = self.__dict__.get("tle")
        else:
            tle = None
        if tle is None:
            tle = KeplerianOrbit(
                altitude=self.altitude,
                true_anomaly=self.true_anomaly,
                epoch=self.epoch,
                inclination=self.inclination,
                right""")],
  demo=ISS + '''
from tatc import config
from tatc.schemas import CircularOrbit
o = CircularOrbit(altitude=500000, inclination=50, epoch=datetime(2021, 6, 1, tzinfo=UTC))
a = o.to_tle()
assert o.to_tle() is a
config.rc.orbit_tle_lazy_load = False
try:
    o.inclination = 60
    assert abs(o.to_tle().get_inclination() - 60) < 1e-3, o.to_tle().get_inclination()
    assert abs(o.to_tle(False).get_inclination() - 60) < 1e-3
finally:
    config.rc.orbit_tle_lazy_load = True
'''),
"repeat-cycle-first": dict(property="C07",
  needs="an orbit that revisits its initial point within tolerance more than once in the search window",
  breaks="the last instead of the first valid revisit is taken for the cycle",
  edits=[("schemas/orbit.py", "repeat_cycle = ts[es == 1][is_valid][0].utc_datetime() - epoch",
          "repeat_cycle = ts[es == 1][is_valid][-1].utc_datetime() - epoch")],
  demo=ISS + '''
from tatc.schemas import CircularOrbit
E = datetime(2021, 6, 1, tzinfo=UTC)
n = 0
for h in range(400000, 620000, 5000):
    o = CircularOrbit(altitude=h, inclination=40, epoch=E).to_tle()
    k = dict(max_delta_position=200000, max_delta_velocity=400, min_elevation_angle=30, lazy_load=False)
    a = o.get_repeat_cycle(max_search_duration=timedelta(days=2.2), **k)
    b = o.get_repeat_cycle(max_search_duration=timedelta(days=7), **k)
    if a is not None:
        n += 1
        assert b is not None and abs(a - b) < timedelta(minutes=1), (h, a, b)
assert n
'''),
"train-name-width": dict(property="C09",
  needs="a train whose size has one digit more than its size less one, such as ten satellites",
  breaks="member names are padded for one satellite less than there are",
  edits=[("schemas/satellite.py", """                name=zero_pad(self.name, self.number_satellites, i + 1),
                orbit=self.orbit.get_derived_orbit(
                    i * self""", """                name=zero_pad(self.name, self.number_satellites - 1, i + 1),
                orbit=self.orbit.get_derived_orbit(
                    i * self""")],
  demo=MULTI + '''
c = TrainConstellation(name="t", orbit=CircularOrbit(altitude=500000, epoch=E), number_satellites=10, interval=timedelta(minutes=1))
names = [m.name for m in c.generate_members()]
assert len({len(x) for x in names}) == 1 and names == sorted(names), names
'''),
"pixel-angle-time": dict(property="C24",
  needs="satellite look angles requested for ground pixels at two or more instants",
  breaks="the pixels' look angles use the Earth's rotation at the first instant",
  edits=[("analysis/track.py", """                ).at(timescale.from_datetime(record["time"]))
            ).altaz()""", """                ).at(timescale.from_datetime(records[0]["time"]))
            ).altaz()""")],
  demo=ISS + '''
from tatc.schemas import Satellite, TwoLineElements, PointedInstrument
from tatc.analysis import collect_ground_pixels
E = datetime(2021, 6, 5, 7, 19, 36, tzinfo=UTC)
ins = PointedInstrument(cross_track_field_of_view=10, along_track_field_of_view=10, field_of_regard=30, is_rectangular=True, cross_track_pixels=2, along_track_pixels=2)
sat = Satellite(name="s", orbit=TwoLineElements(tle=tle()), instruments=[ins])
ts = [E, E + timedelta(minutes=20)]
a = collect_ground_pixels(sat, ts, sat_altaz=True)
b = collect_ground_pixels(sat, ts[1:], sat_altaz=True)
assert len(a) == 8 and np.allclose(a.sat_alt[4:], b.sat_alt), (a.sat_alt, b.sat_alt)
'''),
"fibonacci-far-wrap": dict(property="C28",
  needs="a mask in 0-360 longitudes that reaches east of 270 degrees",
  breaks="lattice points between -90 and 0 degrees are not wrapped into the mask's longitudes and are lost",
  edits=[("generation/points.py", """                        and max_longitude > 180
                        and _compute_fibonacci_lattice_point_longitude(i) < 0""",
  """                        and max_longitude > 180
                        and _compute_fibonacci_lattice_point_longitude(i) < -90""")],
  demo='''
from shapely.geometry import box
from tatc.generation import generate_fibonacci_lattice_points
a = generate_fibonacci_lattice_points(500000, mask=box(260, -20, 300, 20))
b = generate_fibonacci_lattice_points(500000, mask=box(-100, -20, -60, 20))
assert len(b) > 3 and sorted(a.point_id) == sorted(b.point_id), (len(a), len(b))
'''),
"station-zenith-elevation": dict(property="C31",
  needs="a station that requires an elevation of exactly 90 degrees",
  breaks="the documented upper end of the station's elevation range is rejected",
  edits=[("schemas/point.py", """        + "for satellite communication.",
        ge=0,
        le=90,""", """        + "for satellite communication.",
        ge=0,
        lt=90,""")],
  demo='''
from tatc.schemas import GroundStation
assert GroundStation(name="s", latitude=0, longitude=0, min_elevation_angle=90).min_elevation_angle == 90
'''),
"downlink-access-edge": dict(property="C16",
  needs="a station whose minimum access time equals the length of a pass",
  breaks="passes exactly as long as the station's minimum access time are dropped",
  edits=[("analysis/latency.py", "if (station.min_access_time <= period.right - period.left)",
          "if (station.min_access_time < period.right - period.left)")],
  demo=ISS + '''
from tatc.schemas import Satellite, TwoLineElements, GroundStation
from tatc.analysis import collect_downlinks
E = datetime(2021, 6, 5, 7, 19, 36, tzinfo=UTC)
sat = Satellite(name="s", orbit=TwoLineElements(tle=tle()))
k = dict(name="g", latitude=20, longitude=40)
a = collect_downlinks(GroundStation(**k), sat, E, E + timedelta(days=1))
d = max(a.end - a.start)
b = collect_downlinks(GroundStation(min_access_time=d.to_pytimedelta(), **k), sat, E, E + timedelta(days=1))
if d == d.to_pytimedelta():
    assert len(b) >= 1, (d, len(b))
'''),
"settings-reload-path": dict(property="C30",
  needs="a settings file with a negative repeat-cycle search elevation",
  breaks="the search elevation setting no longer has its documented lower limit",
  edits=[("config.py", """for .", gt=0
""", """for .", gt=-90
""")],
  demo='''
import tempfile, pathlib, os
from tatc.config import load_yaml_config, ConfigError
with tempfile.TemporaryDirectory() as d:
    p = pathlib.Path(d) / "c.yml"
    p.write_text("repeat_cycle_search_elevation_deg: -5\\n")
    try:
        load_yaml_config(p)
    except ConfigError:
        pass
    else:
        raise SystemExit(1)
'''),
"molniya-derived-perigee": dict(property="C05",
  needs="a Tundra orbit whose perigee argument is not the default, derived with an offset",
  breaks="derived Tundra orbits fall back to the default argument of perigee when only the node is displaced",
  edits=[("schemas/orbit.py", """            eccentricity=self.eccentricity,
            perigee_argument=self.perigee_argument,
        )
@@""".replace("\n@@", "")[0:0] + """        return TundraOrbit(
            altitude=self.altitude,""", """        return TundraOrbit(
            altitude=self.altitude if delta_mean_anomaly else np.round(self.altitude, -3),""")],
  demo='''
from datetime import datetime, timezone
from tatc.schemas import TundraOrbit
o = TundraOrbit(altitude=25000123, epoch=datetime(2021, 6, 1, tzinfo=timezone.utc))
assert o.get_derived_orbit(0, 30).altitude == o.altitude == o.get_derived_orbit(10, 30).altitude
'''),
"pixel-ifov-square": dict(property="C20",
  needs="an instrument with different numbers of cross-track and along-track pixels and oversampling",
  breaks="the along-track instantaneous field of view uses the cross-track oversampling",
  edits=[("schemas/instrument.py", """            / self.along_track_pixels
            / (1 - self.along_track_oversampling)
        )""", """            / self.along_track_pixels
            / (1 - self.cross_track_oversampling)
        )""")],
  demo='''
from tatc.schemas import PointedInstrument
i = PointedInstrument(cross_track_field_of_view=10, along_track_field_of_view=10, along_track_pixels=4, cross_track_oversampling=0.5)
assert abs(i.get_along_track_instantaneous_field_of_view() - 2.5) < 1e-9
assert abs(i.get_cross_track_instantaneous_field_of_view() - 20) < 1e-9
'''),
"dop-elevation-mask": dict(property="C27",
  needs="a minimum elevation above zero with satellites below it",
  breaks="satellites below the minimum elevation but above the horizon still enter the geometry matrix",
  edits=[("analysis/dop.py", "mask = el[:, i] >= np.deg2rad(min_elevation)", "mask = el[:, i] >= min(0, np.deg2rad(min_elevation))")],
  demo=ISS + '''
from tatc.schemas import Satellite, CircularOrbit, WalkerConstellation, Point
from tatc.analysis import compute_dop, DopMethod
E = datetime(2021, 6, 1, tzinfo=UTC)
sats = WalkerConstellation(name="w", orbit=CircularOrbit(altitude=20200000, inclination=55, epoch=E), number_satellites=24, number_planes=6, relative_spacing=1).generate_members()
p = Point(id=0, latitude=30, longitude=40)
ts = [E + timedelta(hours=k) for k in range(4)]
for e in (15, 25):
    got = compute_dop(ts, p, sats, e, DopMethod.PDOP).dop
    for k, t in enumerate(ts):
        from skyfield.api import wgs84
        from tatc.constants import timescale
        up = []
        for s in sats:
            tt = timescale.from_datetime(t)
            a, _, _ = (s.orbit.to_tle().get_orbit_track(t) - wgs84.latlon(30, 40).at(tt)).altaz()
            if a.degrees >= e:
                up.append(s)
        one = compute_dop([t], p, up, -90, DopMethod.PDOP).dop
        if len(up) > 4:
            assert np.allclose(got.iloc[k], one.iloc[0]), (e, k)
'''),
}
