"""Reference definitions: orbits."""
from datetime import datetime, timedelta, timezone
from typing import List, Union
import numpy as np
from sgp4 import exporter
from sgp4.api import Satrec, WGS72
from sgp4.conveniences import sat_epoch_datetime
from skyfield.api import EarthSatellite, Time, wgs84
from skyfield.framelib import itrs
from skyfield.positionlib import Geocentric
from tatc import config, utils
from tatc import constants as K
from tatc.schemas.orbit import (
    TwoLineElements, CircularOrbit, KeplerianOrbit, MolniyaOrbit, TundraOrbit,
)

TS = K.timescale


# ---------------------------------------------------------------- TLE fields

def line1(self, tle_i):
    return self.tle[2 * tle_i]


def line2(self, tle_i):
    return self.tle[2 * tle_i + 1]


def implied_decimal(line, k):
    """Columns k+1..k+8 (one-based): sign, five digits, exponent."""
    return float(line[k] + "0." + line[k + 1:k + 6].strip()) * 10 ** int(line[k + 6:k + 8])


@spec("C01 C03", "tatc.schemas.orbit.TwoLineElements.get_tle_count")
def tle_count(self: TwoLineElements) -> int:
    return len(self.tle) // 2


@spec("C01", "tatc.schemas.orbit.TwoLineElements.get_catalog_number")
def catalog_number(self: TwoLineElements, tle_i=0) -> int:
    return int(line1(self, tle_i)[2:7])


@spec("C01", "tatc.schemas.orbit.TwoLineElements.get_classification")
def classification(self: TwoLineElements, tle_i=0) -> str:
    return line1(self, tle_i)[7]


@spec("C01", "tatc.schemas.orbit.TwoLineElements.get_international_designator")
def international_designator(self: TwoLineElements, tle_i=0) -> str:
    year = line1(self, tle_i)[9:11]
    if year.isdigit():
        century = "20" if int(year) < 57 else "19"
    else:
        century = ""
    return str(century + year + "-" + line1(self, tle_i)[11:14] + line1(self, tle_i)[14:17]).strip()


@spec("C01 C03", "tatc.schemas.orbit.TwoLineElements.get_epoch")
def epoch(self: TwoLineElements, tle_i=0) -> datetime:
    return sat_epoch_datetime(Satrec.twoline2rv(line1(self, tle_i), line2(self, tle_i)))


@spec("C01", "tatc.schemas.orbit.TwoLineElements.get_first_derivative_mean_motion")
def ndot(self: TwoLineElements, tle_i=0) -> float:
    return float(line1(self, tle_i)[33:43])


@spec("C01", "tatc.schemas.orbit.TwoLineElements.get_second_derivative_mean_motion")
def nddot(self: TwoLineElements, tle_i=0) -> float:
    return implied_decimal(line1(self, tle_i), 44)


@spec("C01", "tatc.schemas.orbit.TwoLineElements.get_b_star")
def b_star(self: TwoLineElements, tle_i=0) -> float:
    return implied_decimal(line1(self, tle_i), 53)


@spec("C01", "tatc.schemas.orbit.TwoLineElements.get_ephemeris_type")
def ephemeris_type(self: TwoLineElements, tle_i=0) -> int:
    return int(line1(self, tle_i)[62])


@spec("C01", "tatc.schemas.orbit.TwoLineElements.get_element_set_number")
def element_set_number(self: TwoLineElements, tle_i=0) -> int:
    return int(line1(self, tle_i)[64:68])


@spec("C01", "tatc.schemas.orbit.TwoLineElements.get_inclination")
def inclination(self: TwoLineElements, tle_i=0) -> float:
    return float(line2(self, tle_i)[8:16])


@spec("C01", "tatc.schemas.orbit.TwoLineElements.get_right_ascension_ascending_node")
def raan(self: TwoLineElements, tle_i=0) -> float:
    return float(line2(self, tle_i)[17:25])


@spec("C01", "tatc.schemas.orbit.TwoLineElements.get_eccentricity")
def eccentricity(self: TwoLineElements, tle_i=0) -> float:
    return float("0." + line2(self, tle_i)[26:33].strip())


@spec("C01", "tatc.schemas.orbit.TwoLineElements.get_perigee_argument")
def perigee_argument(self: TwoLineElements, tle_i=0) -> float:
    return float(line2(self, tle_i)[34:42])


@spec("C01", "tatc.schemas.orbit.TwoLineElements.get_mean_anomaly")
def mean_anomaly(self: TwoLineElements, tle_i=0) -> float:
    return float(line2(self, tle_i)[43:51])


@spec("C01 C04", "tatc.schemas.orbit.TwoLineElements.get_mean_motion")
def mean_motion(self: TwoLineElements, tle_i=0) -> float:
    return float(line2(self, tle_i)[52:63])


@spec("C01 C04", "tatc.schemas.orbit.TwoLineElements.get_orbit_period")
def tle_period(self: TwoLineElements, tle_i=0) -> timedelta:
    return timedelta(days=1 / self.get_mean_motion(tle_i))


@spec("C01", "tatc.schemas.orbit.TwoLineElements.get_revolution_number_at_epoch")
def revolution(self: TwoLineElements, tle_i=0) -> int:
    return int(line2(self, tle_i)[63:68])


@spec("C01 C04", "tatc.schemas.orbit.TwoLineElements.get_semimajor_axis")
def tle_semimajor_axis(self: TwoLineElements, tle_i=0) -> float:
    n = 2 * np.pi * self.get_mean_motion(tle_i) / 86400
    return (K.EARTH_MU / n**2) ** (1 / 3)


@spec("C01 C04", "tatc.schemas.orbit.TwoLineElements.get_altitude")
def tle_altitude(self: TwoLineElements, tle_i=0) -> float:
    return self.get_semimajor_axis(tle_i) - K.EARTH_MEAN_RADIUS


@spec("C01 C04", "tatc.schemas.orbit.TwoLineElements.get_true_anomaly")
def tle_true_anomaly(self: TwoLineElements, tle_i=0) -> float:
    return utils.mean_anomaly_to_true_anomaly(self.get_mean_anomaly(tle_i), self.get_eccentricity(tle_i))


# ---------------------------------------------------------------- derived orbits

def days_since_1949(t):
    return (t - datetime(1949, 12, 31, tzinfo=timezone.utc)) / timedelta(days=1)


@spec("C05", "tatc.schemas.orbit.TwoLineElements.get_derived_orbit")
def tle_derived(self: TwoLineElements, delta_mean_anomaly: float, delta_raan: float):
    lines = self.tle.copy()
    for i in range(self.get_tle_count()):
        lead = Satrec.twoline2rv(self.tle[2 * i], self.tle[2 * i + 1])
        satrec = Satrec()
        satrec.sgp4init(
            WGS72, "i", 0, days_since_1949(sat_epoch_datetime(lead)),
            lead.bstar, lead.ndot, lead.nddot, lead.ecco, lead.argpo, lead.inclo,
            np.mod(lead.mo + np.radians(delta_mean_anomaly), 2 * np.pi),
            lead.no_kozai,
            np.mod(lead.nodeo + np.radians(delta_raan), 2 * np.pi),
        )
        a, b = exporter.export_tle(satrec)
        lines[2 * i] = a.replace("\x00", "U")
        lines[2 * i + 1] = b
    return TwoLineElements(tle=lines)


def shifted(orbit, delta, e):
    return np.mod(
        utils.mean_anomaly_to_true_anomaly(np.mod(orbit.get_mean_anomaly() + delta, 360), e), 360)


@spec("C05", "tatc.schemas.orbit.CircularOrbit.get_derived_orbit")
def circular_derived(self: CircularOrbit, delta_mean_anomaly: float, delta_raan: float):
    return CircularOrbit(
        altitude=self.altitude, epoch=self.epoch, inclination=self.inclination,
        true_anomaly=shifted(self, delta_mean_anomaly, 0),
        right_ascension_ascending_node=np.mod(self.right_ascension_ascending_node + delta_raan, 360),
    )


@spec("C05", "tatc.schemas.orbit.SunSynchronousOrbit.get_derived_orbit")
def sso_derived(self, delta_mean_anomaly: float, delta_raan: float):
    return CircularOrbit(
        altitude=self.altitude, epoch=self.epoch, inclination=self.get_inclination(),
        true_anomaly=shifted(self, delta_mean_anomaly, 0),
        right_ascension_ascending_node=np.mod(
            self.get_right_ascension_ascending_node() + delta_raan, 360),
    )


@spec("C05", "tatc.schemas.orbit.KeplerianOrbit.get_derived_orbit")
def keplerian_derived(self, delta_mean_anomaly: float, delta_raan: float):
    return KeplerianOrbit(
        altitude=self.altitude, epoch=self.epoch, inclination=self.inclination,
        true_anomaly=shifted(self, delta_mean_anomaly, self.eccentricity),
        right_ascension_ascending_node=np.mod(self.right_ascension_ascending_node + delta_raan, 360),
        eccentricity=self.eccentricity, perigee_argument=self.perigee_argument,
    )


@spec("C05", "tatc.schemas.orbit.MolniyaOrbit.get_derived_orbit")
def molniya_derived(self, delta_mean_anomaly: float, delta_raan: float):
    return MolniyaOrbit(
        altitude=self.altitude, epoch=self.epoch, inclination=self.inclination,
        true_anomaly=shifted(self, delta_mean_anomaly, self.get_eccentricity()),
        right_ascension_ascending_node=np.mod(self.right_ascension_ascending_node + delta_raan, 360),
        orbital_period=self.orbital_period, perigee_argument=self.perigee_argument,
    )


@spec("C05", "tatc.schemas.orbit.TundraOrbit.get_derived_orbit")
def tundra_derived(self, delta_mean_anomaly: float, delta_raan: float):
    return TundraOrbit(
        altitude=self.altitude, epoch=self.epoch, inclination=self.inclination,
        true_anomaly=shifted(self, delta_mean_anomaly, self.get_eccentricity()),
        right_ascension_ascending_node=np.mod(self.right_ascension_ascending_node + delta_raan, 360),
        orbital_period=self.orbital_period, perigee_argument=self.perigee_argument,
        eccentricity=self.eccentricity,
    )


# ---------------------------------------------------------------- several TLEs

@spec("C03", "tatc.schemas.orbit.TwoLineElements.as_skyfield")
def as_skyfield(self: TwoLineElements, tle_i=0) -> EarthSatellite:
    return EarthSatellite(self.tle[2 * tle_i], self.tle[2 * tle_i + 1])


def nearest(epochs, t, idx):
    """Index of the epoch nearest t, given the first epoch not before t."""
    if idx > 0 and (
        idx == len(epochs) or abs(t - epochs[idx - 1]) < abs(t - epochs[idx])
    ):
        return int(idx - 1)
    return int(idx)


@spec("C03 C06", "tatc.schemas.orbit.TwoLineElements.get_closest_tle_index", heap=True)
def closest(self: TwoLineElements, at_times: Union[datetime, List[datetime]]):
    if at_times is None:
        return 0
    epochs = self.__dict__.get("tle_epochs")
    if epochs is None:
        epochs = np.array([self.get_epoch(i) for i in range(self.get_tle_count())])
        self.__dict__["tle_epochs"] = epochs
    if isinstance(at_times, datetime):
        return nearest(epochs, at_times, np.searchsorted(epochs, at_times, side="left"))
    found = np.searchsorted(epochs, at_times, side="left")
    return [nearest(epochs, at_times[i], j) for i, j in enumerate(found)]


@spec("C03", "tatc.schemas.orbit.TwoLineElements.partition_by_tle_index")
def partition(self: TwoLineElements, start: datetime, end: datetime):
    if self.get_tle_count() <= 1:
        return [start, end], [0, 0]
    epochs = [self.get_epoch(i) for i in range(self.get_tle_count())]
    ordered = np.sort(epochs)
    order = np.argsort(epochs)
    midpoints = ordered[1:] + (ordered[:-1] - ordered[1:]) / 2
    inside = [i for i, t in enumerate(midpoints) if start < t < end]
    return (
        [start] + list(midpoints[inside]) + [end],
        [self.get_closest_tle_index(start)] + [int(order[i + 1]) for i in inside]
        + [self.get_closest_tle_index(end)],
    )


@spec("C06 C07 C30:config", "tatc.schemas.orbit.TwoLineElements.get_repeat_cycle", heap=True)
def repeat_cycle(
    self: TwoLineElements, max_delta_position: float = None, max_delta_velocity: float = None,
    min_elevation_angle: float = None, max_search_duration: timedelta = None,
    lazy_load: bool = None,
) -> timedelta:
    if max_delta_position is None:
        max_delta_position = config.rc.repeat_cycle_delta_position_m
    if max_delta_velocity is None:
        max_delta_velocity = config.rc.repeat_cycle_delta_velocity_m_per_s
    if min_elevation_angle is None:
        min_elevation_angle = config.rc.repeat_cycle_search_elevation_deg
    if max_search_duration is None:
        max_search_duration = timedelta(days=config.rc.repeat_cycle_search_duration_days)
    if lazy_load is None:
        lazy_load = config.rc.repeat_cycle_lazy_load
    cycle = self.__dict__.get("repeat_cycle") if lazy_load else None
    if cycle is None:
        t0 = self.get_epoch()
        initial = self.as_skyfield().at(TS.from_datetime(t0))
        p0, v0 = initial.frame_xyz_and_velocity(itrs)
        ts, es = self.as_skyfield().find_events(
            wgs84.subpoint_of(initial), TS.from_datetime(t0 + timedelta(minutes=10)),
            TS.from_datetime(t0 + max_search_duration), min_elevation_angle)
        p, v = self.as_skyfield().at(ts[es == 1]).frame_xyz_and_velocity(itrs)
        close = np.logical_and(
            np.linalg.norm((p.m.T - p0.m.T).T, axis=0) < max_delta_position,
            np.linalg.norm((v.m_per_s.T - v0.m_per_s.T).T, axis=0) < max_delta_velocity,
        )
        cycle = ts[es == 1][close][0].utc_datetime() - t0 if np.any(close) else timedelta(0)
        self.__dict__["repeat_cycle"] = cycle
    return cycle if cycle > timedelta(0) else None


def folded(offset, cycle):
    return np.sign(offset / timedelta(1)) * np.mod(np.abs(offset), cycle)


@spec("C23 C03 C07 C30:config", "tatc.schemas.orbit.TwoLineElements.get_orbit_track")
def orbit_track(self: TwoLineElements, times: Union[datetime, List[datetime]], try_repeat: bool = None):
    if try_repeat is None:
        try_repeat = config.rc.repeat_cycle_for_orbit_track
    if self.get_tle_count() > 1:
        which = self.get_closest_tle_index(times)
        if isinstance(times, datetime):
            return self.as_skyfield(which).at(TS.from_datetime(times))
        tracks = [self.as_skyfield(i).at(TS.from_datetime(t)) for i, t in zip(which, times)]
        return Geocentric(
            np.array([x.position.au for x in tracks]).T,
            np.array([x.velocity.au_per_d for x in tracks]).T,
            TS.from_datetimes(times),
        )
    ts = TS.from_datetime(times) if isinstance(times, datetime) else TS.from_datetimes(times)
    if try_repeat:
        cycle = self.get_repeat_cycle()
        if cycle is not None:
            t0 = self.get_epoch()
            if isinstance(times, datetime):
                rt = TS.from_datetime(t0 + folded(times - t0, cycle))
            else:
                rt = TS.from_datetimes(t0 + folded(np.array(times) - t0, cycle))
            x = self.as_skyfield().at(rt)
            return Geocentric(x.position.au, x.velocity.au_per_d, ts)
    return self.as_skyfield().at(ts)


@spec("C11 C03 C07 C30:config", "tatc.schemas.orbit.TwoLineElements.get_observation_events")
def observation_events(
    self: TwoLineElements, point, start: datetime, end: datetime, min_elevation_angle: float,
    try_repeat: bool = None,
):
    if try_repeat is None:
        try_repeat = config.rc.repeat_cycle_for_observation_events
    topos = wgs84.latlon(point.latitude, point.longitude, point.elevation)
    if self.get_tle_count() > 1:
        ts, which = self.partition_by_tle_index(start, end)
        found = [
            self.as_skyfield(which[i]).find_events(
                topos, TS.from_datetime(ts[i]), TS.from_datetime(ts[i + 1]), min_elevation_angle)
            for i in range(len(ts) - 1)
        ]
        return (
            TS.from_datetimes([t.utc_datetime() for e in found for t in e[0]]),
            np.array([v for e in found for v in e[1]]),
        )
    if try_repeat:
        cycle = self.get_repeat_cycle()
        if cycle is not None and cycle < end - start:
            times, events = self.as_skyfield().find_events(
                topos, TS.from_datetime(start), TS.from_datetime(start + cycle), min_elevation_angle)
            if len(times) == 0:
                return Time([], []), np.array([], dtype=int)
            count = int(np.ceil((end - start) / cycle))
            all_times = np.concatenate([times.utc_datetime() + i * cycle for i in range(count)])
            all_events = np.concatenate([events for _ in range(count)])
            if len(all_times) == 0:
                return Time([], []), np.array([], dtype=int)
            return TS.from_datetimes(all_times[all_times <= end]), all_events[all_times <= end]
    return self.as_skyfield().find_events(
        topos, TS.from_datetime(start), TS.from_datetime(end), min_elevation_angle)


# ---------------------------------------------------------------- conversions

@spec("C04", "tatc.schemas.orbit.TwoLineElements.to_tle")
def tle_to_tle(self: TwoLineElements) -> TwoLineElements:
    return self


@spec("C04", "tatc.schemas.orbit.OrbitBase.get_mean_anomaly")
def base_mean_anomaly(self) -> float:
    return utils.true_anomaly_to_mean_anomaly(self.true_anomaly, 0)


@spec("C04", "tatc.schemas.orbit.OrbitBase.get_semimajor_axis")
def base_axis(self) -> float:
    return self.altitude + K.EARTH_MEAN_RADIUS


@spec("C04", "tatc.schemas.orbit.OrbitBase.get_mean_motion")
def base_mean_motion(self) -> float:
    return timedelta(days=1) / self.get_orbit_period()


@spec("C04", "tatc.schemas.orbit.OrbitBase.get_orbit_period")
def base_period(self) -> timedelta:
    return timedelta(seconds=utils.compute_orbit_period(self.altitude))


@spec("C04", "tatc.schemas.orbit.SunSynchronousOrbit.get_inclination")
def sso_inclination(self) -> float:
    return np.degrees(np.arccos(-np.power(self.get_semimajor_axis() / 12352000, 7 / 2)))


@spec("C04", "tatc.schemas.orbit.SunSynchronousOrbit.get_right_ascension_ascending_node")
def sso_raan(self) -> float:
    t = self.equator_crossing_time
    fraction = timedelta(
        hours=t.hour, minutes=t.minute, seconds=t.second, microseconds=t.microsecond
    ) / timedelta(days=1)
    sun, earth = K.de421["sun"], K.de421["earth"]
    ra, _, _ = earth.at(TS.from_datetime(self.epoch)).observe(sun).radec()
    return (ra._degrees + 360 * fraction + 180 * self.equator_crossing_ascending) % 360


@spec("C04", "tatc.schemas.orbit.KeplerianOrbit.get_mean_anomaly")
def keplerian_mean_anomaly(self) -> float:
    return utils.true_anomaly_to_mean_anomaly(self.true_anomaly, self.eccentricity)


@spec("C04", "tatc.schemas.orbit.MolniyaOrbit.get_semimajor_axis")
def molniya_axis(self) -> float:
    return np.cbrt(6.6743e-11 * 5.9736e24 * self.orbital_period**2 / (4 * np.pi**2))


@spec("C04", "tatc.schemas.orbit.MolniyaOrbit.get_orbit_period")
def molniya_period(self) -> timedelta:
    return timedelta(seconds=self.orbital_period)


@spec("C04", "tatc.schemas.orbit.MolniyaOrbit.get_eccentricity")
def molniya_eccentricity(self) -> float:
    a = self.get_semimajor_axis()
    return (a - (self.altitude + K.EARTH_EQUATORIAL_RADIUS)) / a


@spec("C04", "tatc.schemas.orbit.TundraOrbit.get_eccentricity")
def tundra_eccentricity(self) -> float:
    return self.eccentricity


@spec("C04", "tatc.schemas.orbit.MolniyaOrbit.get_mean_anomaly")
def molniya_mean_anomaly(self) -> float:
    return utils.true_anomaly_to_mean_anomaly(self.true_anomaly, self.get_eccentricity())


def elements(t, e, argp, inc, mean_anomaly, revs_per_day, node):
    """Mean elements in degrees and revolutions per day as a TLE."""
    satrec = Satrec()
    satrec.sgp4init(
        WGS72, "i", 0, days_since_1949(t), 0, 0.0, 0.0, e, np.radians(argp), np.radians(inc),
        np.radians(mean_anomaly), revs_per_day * 2 * np.pi / 1440, np.radians(node))
    a, b = exporter.export_tle(satrec)
    return TwoLineElements(tle=[a.replace("\x00", "U"), b])


def cached(self, lazy_load):
    if lazy_load is None:
        lazy_load = config.rc.orbit_tle_lazy_load
    return self.__dict__.get("tle") if lazy_load else None


@spec("C04 C06 C30:config", "tatc.schemas.orbit.CircularOrbit.to_tle", heap=True)
def circular_tle(self, lazy_load: bool = None) -> TwoLineElements:
    tle = cached(self, lazy_load)
    if tle is None:
        tle = KeplerianOrbit(
            altitude=self.altitude, true_anomaly=self.true_anomaly, epoch=self.epoch,
            inclination=self.inclination,
            right_ascension_ascending_node=self.right_ascension_ascending_node,
        ).to_tle()
        self.__dict__["tle"] = tle
    return tle


@spec("C04 C06 C30:config", "tatc.schemas.orbit.SunSynchronousOrbit.to_tle", heap=True)
def sso_tle(self, lazy_load: bool = None) -> TwoLineElements:
    tle = cached(self, lazy_load)
    if tle is None:
        tle = KeplerianOrbit(
            altitude=self.altitude, true_anomaly=self.true_anomaly, epoch=self.epoch,
            inclination=self.get_inclination(),
            right_ascension_ascending_node=self.get_right_ascension_ascending_node(),
        ).to_tle()
        self.__dict__["tle"] = tle
    return tle


@spec("C04 C06 C30:config", "tatc.schemas.orbit.KeplerianOrbit.to_tle", heap=True)
def keplerian_tle(self, lazy_load: bool = None) -> TwoLineElements:
    tle = cached(self, lazy_load)
    if tle is None:
        tle = elements(
            self.epoch, self.eccentricity, self.perigee_argument, self.inclination,
            self.get_mean_anomaly(), self.get_mean_motion(), self.right_ascension_ascending_node)
        self.__dict__["tle"] = tle
    return tle


@spec("C04 C06 C30:config", "tatc.schemas.orbit.MolniyaOrbit.to_tle", heap=True)
def molniya_tle(self, lazy_load: bool = None) -> TwoLineElements:
    tle = cached(self, lazy_load)
    if tle is None:
        tle = elements(
            self.epoch, self.get_eccentricity(), self.perigee_argument, self.inclination,
            self.get_mean_anomaly(), 86400 / self.orbital_period,
            self.right_ascension_ascending_node)
        self.__dict__["tle"] = tle
    return tle
