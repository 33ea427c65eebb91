"""Reference definitions: constants, spherical geometry, anomalies."""
import numpy as np
from tatc import constants as K

constant("C19", "tatc.constants.EARTH_SOLAR_DAY_S", 86400)
constant("C19", "tatc.constants.EARTH_SIDEREAL_DAY_S", 86164.0905)
constant("C19 C21", "tatc.constants.EARTH_FLATTENING", 1 / 298.257223563)
constant("C19 C21", "tatc.constants.EARTH_EQUATORIAL_RADIUS", 6378137.0)
constant("C19 C21", "tatc.constants.EARTH_POLAR_RADIUS", 6356752.314245179)
constant("C19 C04", "tatc.constants.EARTH_MU", 3.986004418e14)
constant("C19", "tatc.constants.EARTH_ECCENTRICITY",
         np.sqrt(2 / 298.257223563 - (1 / 298.257223563) ** 2))
constant("C19", "tatc.constants.EARTH_EQUATORIAL_CIRCUMFERENCE", 2 * np.pi * 6378137.0)
constant("C19", "tatc.constants.EARTH_POLAR_CIRCUMFERENCE", 2 * np.pi * 6356752.314245179)
constant("C19", "tatc.constants.EARTH_SURFACE_AREA",
         2 * np.pi * 6378137.0**2 + np.pi * 6356752.314245179**2 / K.EARTH_ECCENTRICITY
         * np.log((1 + K.EARTH_ECCENTRICITY) / (1 - K.EARTH_ECCENTRICITY)))
constant("C19 C04", "tatc.constants.EARTH_MEAN_RADIUS", (6378137.0 + 6378137.0 + 6356752.314245179) / 3)

R = K.EARTH_MEAN_RADIUS


@spec("C04", "tatc.utils.mean_anomaly_to_true_anomaly")
def mean_to_true(mean_anomaly: float, eccentricity: float = 0):
    M, e = np.radians(mean_anomaly), eccentricity
    return np.degrees(
        M + (2 * e - e**3 / 4) * np.sin(M) + 5 / 4 * e**2 * np.sin(2 * M)
        + 13 / 12 * e**3 * np.sin(3 * M)
    )


@spec("C04", "tatc.utils.true_anomaly_to_mean_anomaly")
def true_to_mean(true_anomaly: float, eccentricity: float = 0):
    v, e = np.radians(true_anomaly), eccentricity
    return np.degrees(
        v - 2 * e * np.sin(v) + (3 / 4 * e**2 + 1 / 8 * e**4) * np.sin(2 * v)
        - 1 / 3 * e**3 * np.sin(3 * v) + 5 / 32 * e**4 * np.sin(4 * v)
    )


@spec("C28", "tatc.utils.compute_number_samples")
def number_samples(distance: float):
    cap = 2 * np.pi * R * (R - R * np.cos(distance / R / 2))
    return int(K.EARTH_SURFACE_AREA / cap)


def sin_rho(altitude, elevation):
    return (R + elevation) / (R + altitude)


def nadir_angle(rho, lam):
    """Tangent law: angle at the satellite between nadir and a point at central angle lam."""
    return np.arctan(rho * np.sin(lam) / (1 - rho * np.cos(np.arcsin(np.sin(lam)))))


@spec("C19", "tatc.utils.swath_width_to_field_of_regard")
def swath_to_for(altitude: float, swath_width: float, elevation: float = 0):
    return np.degrees(2 * nadir_angle(sin_rho(altitude, elevation), swath_width / 2 / (R + elevation)))


def central_angle(rho, sin_eta):
    return np.pi / 2 - np.arcsin(sin_eta) - np.arccos(sin_eta / rho)


@spec("C19", "tatc.utils.swath_width_to_field_of_view")
def swath_to_fov(altitude: float, swath_width: float, look_angle: float = 0, elevation: float = 0):
    rho = sin_rho(altitude, elevation)
    lam = central_angle(rho, min(rho, np.sin(np.radians(look_angle))))
    half = swath_width / 2 / (R + elevation)
    return np.degrees(nadir_angle(rho, lam + half) - nadir_angle(rho, lam - half))


@spec("C19", "tatc.utils.field_of_regard_to_swath_width")
def for_to_swath(altitude: float, field_of_regard: float, elevation: float = 0):
    rho = sin_rho(altitude, elevation)
    return 2 * (R + elevation) * central_angle(rho, min(rho, np.sin(np.radians(field_of_regard) / 2)))


@spec("C19", "tatc.utils.compute_field_of_regard")
def field_of_regard(altitude: float, min_elevation_angle: float, elevation: float = 0):
    return 2 * np.degrees(np.arcsin(sin_rho(altitude, elevation) * np.cos(np.radians(min_elevation_angle))))


@spec("C19", "tatc.utils.compute_min_elevation_angle")
def min_elevation_angle(altitude: float, field_of_regard: float, elevation: float = 0):
    x = np.sin(np.radians(field_of_regard) / 2) / sin_rho(altitude, elevation)
    return 0 if x > 1 else np.degrees(np.arccos(x))


@spec("C19 C04", "tatc.utils.compute_orbit_period")
def orbit_period(altitude: float):
    return 2 * np.pi / np.sqrt(K.EARTH_MU / (R + altitude) ** 3)


@spec("C19", "tatc.utils.compute_max_access_time")
def max_access_time(altitude: float, min_elevation_angle: float):
    a = R + altitude
    return a * (np.pi - 2 * np.radians(min_elevation_angle)) / np.sqrt(K.EARTH_MU / a)


def vg(altitude, inclination):
    n = np.sqrt(K.EARTH_MU / (R + altitude) ** 3)
    return R * (n - 2 * np.pi / K.EARTH_SIDEREAL_DAY_S * np.cos(np.radians(inclination)))


@spec("C19", "tatc.utils.compute_ground_velocity")
def ground_velocity(altitude: float, inclination: float):
    return vg(altitude, inclination)


@spec("C19", "tatc.utils.along_track_distance_to_access_time")
def distance_to_time(altitude: float, inclination: float, along_track: float):
    return along_track / vg(altitude, inclination)


@spec("C19", "tatc.utils.access_time_to_along_track_distance")
def time_to_distance(altitude: float, inclination: float, access_time: float):
    return access_time * vg(altitude, inclination)
