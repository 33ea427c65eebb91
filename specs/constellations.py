"""Reference definitions: constellation members."""
import copy
import math
from datetime import timedelta
from typing import List
import numpy as np
from tatc.constants import EARTH_MEAN_RADIUS
from tatc.schemas.orbit import KeplerianOrbit
from tatc.schemas.satellite import (
    Satellite, TrainConstellation, WalkerConfiguration, WalkerConstellation,
    MOGConstellation, SOCConstellation,
)
from tatc.utils import (
    zero_pad, swath_width_to_field_of_regard, compute_min_elevation_angle,
)

DAY = timedelta(days=1)


@spec("C09 C08 C10", "tatc.schemas.satellite.Satellite.generate_members")
def single(self: Satellite):
    return [self]


def member(self, i, orbit):
    """Members are named one-based and own a copy of the instruments."""
    return Satellite(
        name=zero_pad(self.name, self.number_satellites, i + 1),
        orbit=orbit,
        instruments=copy.deepcopy(self.instruments),
    )


# ---------------------------------------------------------------- train

@spec("C09", "tatc.schemas.satellite.TrainConstellation.get_delta_mean_anomaly")
def train_anomaly(self: TrainConstellation) -> float:
    """Followers trail the lead by the interval."""
    return -(self.interval / DAY) * self.orbit.get_mean_motion() * 360


@spec("C09", "tatc.schemas.satellite.TrainConstellation.get_delta_raan")
def train_raan(self: TrainConstellation) -> float:
    return 360 * (self.interval / DAY) if self.repeat_ground_track else 0


@spec("C09", "tatc.schemas.satellite.TrainConstellation.generate_members")
def train(self: TrainConstellation):
    return [
        member(self, i, self.orbit.get_derived_orbit(
            i * self.get_delta_mean_anomaly(), i * self.get_delta_raan()))
        for i in range(self.number_satellites)
    ]


# ---------------------------------------------------------------- Walker

@spec("C08 C10", "tatc.schemas.satellite.WalkerConstellation.get_satellites_per_plane")
def walker_per_plane(self: WalkerConstellation) -> int:
    return math.ceil(self.number_satellites / self.number_planes)


@spec("C08 C10", "tatc.schemas.satellite.WalkerConstellation.get_delta_mean_anomaly_within_planes")
def walker_within(self: WalkerConstellation) -> float:
    return 360 / self.get_satellites_per_plane()


@spec("C08 C10", "tatc.schemas.satellite.WalkerConstellation.get_delta_mean_anomaly_between_planes")
def walker_between(self: WalkerConstellation) -> float:
    return self.relative_spacing * 360 / self.number_satellites


@spec("C08 C10", "tatc.schemas.satellite.WalkerConstellation.get_delta_raan_between_planes")
def walker_raan(self: WalkerConstellation) -> float:
    spread = 360 if self.configuration == WalkerConfiguration.DELTA else 180
    return spread / self.number_planes


@spec("C08 C10", "tatc.schemas.satellite.WalkerConstellation.generate_members")
def walker(self: WalkerConstellation):
    per_plane = self.get_satellites_per_plane()
    members = []
    for i in range(self.number_satellites):
        plane, slot = i // per_plane, i % per_plane
        members.append(member(self, i, self.orbit.get_derived_orbit(
            slot * self.get_delta_mean_anomaly_within_planes()
            + plane * self.get_delta_mean_anomaly_between_planes(),
            plane * self.get_delta_raan_between_planes())))
    return members


# ---------------------------------------------------------------- mutual orbiting group

X = np.array([1, 0, 0])
Y = np.array([0, 1, 0])
Z = np.array([0, 0, 1])


def wrapped(angle):
    return (np.degrees(angle) + 360) % 360


def mog_orbit(self, theta):
    a = EARTH_MEAN_RADIUS + self.orbit.altitude
    delta = self.transverse_axis / a / 2
    e = self.parallel_axis / a / 4
    s = 1 if self.clockwise else -1
    i_0 = np.radians(self.orbit.inclination)
    omega_0 = np.radians(self.orbit.right_ascension_ascending_node)
    l_0 = np.cos(i_0) * Z - np.sin(i_0) * Y
    l = (np.cos(delta) * l_0
         + np.sin(delta) * (np.cos(theta) * np.cross(l_0, X) + np.sin(theta) * X))
    i = np.arccos(np.dot(l, Z))
    d_omega = np.arctan2(np.dot(l, X), -np.dot(l, Y))
    omega = omega_0 + d_omega
    p_node = np.cos(d_omega) * X + np.sin(d_omega) * Y
    t = np.cross(l, l_0) / np.sin(delta)
    p_peri = s * np.cross(t, l)
    w = np.arctan2(np.dot(p_peri, np.cross(l, p_node)), np.dot(p_peri, p_node))
    n = np.arctan2(s * np.dot(t, X), s * np.dot(t, np.cross(l_0, X)))
    last = 0
    psi = 0.1
    while np.abs(psi - last) > 1e-6:
        last = psi
        psi = n + e * np.sin(last)
    nu = np.arctan2(np.sin(psi) * np.sqrt(1 - e**2), np.cos(psi) - e)
    return KeplerianOrbit(
        altitude=self.orbit.altitude,
        inclination=wrapped(i),
        eccentricity=e,
        right_ascension_ascending_node=wrapped(omega),
        perigee_argument=wrapped(w),
        true_anomaly=wrapped(nu),
        epoch=self.orbit.epoch,
    )


@spec("C10", "tatc.schemas.satellite.MOGConstellation.generate_members")
def mog(self: MOGConstellation):
    return [
        member(self, i, mog_orbit(self, theta))
        for i, theta in enumerate(
            np.linspace(0, 2 * np.pi, self.number_satellites, endpoint=False))
    ]


# ---------------------------------------------------------------- streets of coverage

@spec("C10", "tatc.schemas.satellite.SOCConstellation.generate_walker")
def soc_walker(self: SOCConstellation):
    h = self.orbit.altitude
    e = compute_min_elevation_angle(h, swath_width_to_field_of_regard(h, self.swath_width))
    eta = math.degrees(
        math.asin(math.cos(math.radians(e)) * EARTH_MEAN_RADIUS / (EARTH_MEAN_RADIUS + h)))
    r_foot = EARTH_MEAN_RADIUS * math.sin(math.radians(90 - e - eta))
    d_f = 2 * r_foot * self.packing_distance
    d_p = math.sqrt(3) * r_foot * self.packing_distance
    per_plane = math.ceil(2 * math.pi / (2 * math.asin(d_f / 2 / EARTH_MEAN_RADIUS)))
    planes = math.ceil(2 * math.pi / (2 * math.asin(d_p / 2 / EARTH_MEAN_RADIUS)))
    return WalkerConstellation(
        name=self.name,
        orbit=self.orbit,
        instruments=self.instruments,
        number_satellites=per_plane * planes,
        number_planes=planes,
    )


@spec("C10", "tatc.schemas.satellite.SOCConstellation.generate_members")
def soc(self: SOCConstellation):
    return self.generate_walker().generate_members()
