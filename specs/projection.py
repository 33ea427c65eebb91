"""Reference definitions: ray projection, footprints, limb, buffering."""
import numpy as np
from pyproj import Transformer
from shapely.geometry import Point, Polygon, MultiPolygon
from shapely.ops import transform
from skyfield.api import wgs84
from skyfield.framelib import itrs
from spiceypy.spiceypy import edlimb, inelpl, nvp2pl, recgeo, surfpt
from spiceypy.utils.exceptions import NotFoundError
from tatc import config
from tatc import constants as K
from tatc.utils import (
    compute_projected_ray_position, project_polygon_to_elevation, split_polygon,
    field_of_regard_to_swath_width, compute_ground_velocity,
)


def corner(along, cross):
    return np.arctan(along / cross)


def side_along(angle, theta, a, c):
    """Offset along velocity at which a ray at this azimuth meets the rectangle."""
    if theta <= angle <= np.pi - theta:
        return a
    if np.pi + theta <= angle <= 2 * np.pi - theta:
        return -a
    if angle < theta:
        return c * np.tan(angle)
    if angle < np.pi:
        return c * np.tan(np.pi - angle)
    if angle < np.pi + theta:
        return -c * np.tan(angle - np.pi)
    return -c * np.tan(2 * np.pi - angle)


def side_cross(angle, theta, a, c):
    if angle <= theta or angle >= 2 * np.pi - theta:
        return c
    if np.pi - theta <= angle <= np.pi + theta:
        return -c
    if angle < np.pi / 2:
        return a * np.tan(np.pi / 2 - angle)
    if angle < np.pi - theta:
        return -a * np.tan(angle - np.pi / 2)
    if angle < 3 * np.pi / 2:
        return -a * np.tan(3 * np.pi / 2 - angle)
    return a * np.tan(angle - 3 * np.pi / 2)


def ground(position, ray, v, n, angle, elevation):
    """Geodetic coordinates where the ray meets the ellipsoid, or the nearer limb point."""
    try:
        return recgeo(
            surfpt(position, ray, K.EARTH_EQUATORIAL_RADIUS + elevation,
                   K.EARTH_EQUATORIAL_RADIUS + elevation, K.EARTH_POLAR_RADIUS + elevation),
            K.EARTH_EQUATORIAL_RADIUS, K.EARTH_FLATTENING)
    except NotFoundError:
        limb = edlimb(K.EARTH_EQUATORIAL_RADIUS + elevation, K.EARTH_EQUATORIAL_RADIUS + elevation,
                      K.EARTH_POLAR_RADIUS + elevation, position)
        _, p, q = inelpl(limb, nvp2pl(
            v * np.sin(np.pi / 2 + angle) + n * np.cos(np.pi / 2 + angle), position))
        x = np.arccos(np.dot(ray, p) / np.linalg.norm(ray) / np.linalg.norm(p))
        y = np.arccos(np.dot(ray, q) / np.linalg.norm(ray) / np.linalg.norm(q))
        return recgeo(p if x <= y else q, K.EARTH_EQUATORIAL_RADIUS, K.EARTH_FLATTENING)


@spec("C21", "tatc.utils.compute_projected_ray_position")
def ray_position(
    orbit_track, cross_track_field_of_view: float, along_track_field_of_view: float,
    roll_angle: float = 0, pitch_angle: float = 0, is_rectangular: bool = False,
    angle: float = 0, elevation: float = 0,
):
    position, velocity = orbit_track.frame_xyz_and_velocity(itrs)
    v = np.divide(velocity.m_per_s, np.linalg.norm(velocity.m_per_s, axis=0))
    b = np.divide(-position.m, np.linalg.norm(position.m, axis=0))
    if len(np.shape(position.m)) > 1:
        n = np.cross(v, b, 0, 0, -1).T
    else:
        n = np.cross(v, b)
    a2 = np.tan(np.radians(along_track_field_of_view / 2))
    c2 = np.tan(np.radians(cross_track_field_of_view / 2))
    center = b + v * np.tan(np.radians(pitch_angle)) + n * np.tan(np.radians(roll_angle))
    if is_rectangular:
        theta = corner(along_track_field_of_view, cross_track_field_of_view)
        ray = center + v * side_along(angle, theta, a2, c2) + n * side_cross(angle, theta, a2, c2)
    else:
        ray = center + v * np.sin(angle) * a2 + n * np.cos(angle) * c2
    geos = np.zeros_like(position.m)
    if geos.ndim > 1:
        for i in range(np.size(geos, axis=1)):
            geos[:, i] = ground(position.m[:, i], ray[:, i], v[:, i], n[:, i], angle, elevation)
    else:
        geos[:] = ground(position.m, ray, v, n, angle, elevation)
    if len(np.shape(geos)) > 1:
        return wgs84.latlon(np.degrees(geos[1, :]), np.degrees(geos[0, :]), geos[2, :])
    return wgs84.latlon(np.degrees(geos[1]), np.degrees(geos[0]), geos[2])


def shape(points, elevation):
    return project_polygon_to_elevation(split_polygon(Polygon(points)), elevation)


@spec("C21 C30:config", "tatc.utils.compute_footprint")
def footprint(
    orbit_track, cross_track_field_of_view: float, along_track_field_of_view: float,
    roll_angle: float = 0, pitch_angle: float = 0, is_rectangular: bool = False,
    number_points: int = None, elevation: float = 0,
):
    if number_points is None:
        number_points = (
            config.rc.footprint_points_rectangular_side if is_rectangular
            else config.rc.footprint_points_elliptical
        )
    if is_rectangular:
        t = corner(along_track_field_of_view, cross_track_field_of_view)
        angles = np.concatenate((
            np.linspace(-t, t, number_points, endpoint=False),
            np.linspace(t, np.pi - t, number_points, endpoint=False),
            np.linspace(np.pi - t, np.pi + t, number_points, endpoint=False),
            np.linspace(np.pi + t, 2 * np.pi - t, number_points, endpoint=False),
        ))
    else:
        angles = np.linspace(0, 2 * np.pi, number_points)
    points = [
        compute_projected_ray_position(
            orbit_track, cross_track_field_of_view, along_track_field_of_view, roll_angle,
            pitch_angle, is_rectangular, x, elevation)
        for x in angles
    ]
    if np.size(orbit_track.t) > 1:
        return [
            shape([(p.longitude.degrees[i], p.latitude.degrees[i]) for p in points], elevation)
            for i in range(np.size(orbit_track.t))
        ]
    return shape([(p.longitude.degrees, p.latitude.degrees) for p in points], elevation)


def limb_of(position, number_points, elevation):
    limb = edlimb(K.EARTH_EQUATORIAL_RADIUS + elevation, K.EARTH_EQUATORIAL_RADIUS + elevation,
                  K.EARTH_POLAR_RADIUS + elevation, position)
    points = []
    for x in np.linspace(0, 2 * np.pi, number_points):
        p = limb.center + np.cos(x) * limb.semi_major + np.sin(x) * limb.semi_minor
        g = recgeo(p, K.EARTH_EQUATORIAL_RADIUS, K.EARTH_FLATTENING)
        points.append(Point(np.degrees(g[0]), np.degrees(g[1])))
    return shape(points, elevation)


@spec("C21", "tatc.utils.compute_limb")
def limb(orbit_track, number_points: int = 16, elevation: float = 0):
    position, _ = orbit_track.frame_xyz_and_velocity(itrs)
    if position.m.ndim > 1:
        return [
            limb_of(position.m[:, i], number_points, elevation)
            for i in range(np.size(position.m, axis=1))
        ]
    return limb_of(position.m, number_points, elevation)


@spec("C24 C25", "tatc.utils.buffer_footprint")
def buffer_footprint(geometry, to_crs: Transformer, from_crs: Transformer, swath_width: float, elevation: float):
    planar = transform(to_crs.transform, geometry).buffer(swath_width / 2)
    return project_polygon_to_elevation(split_polygon(transform(from_crs.transform, planar)), elevation)


@spec("C12 C19", "tatc.utils.buffer_target")
def buffer_target(
    geometry, altitude: float, inclination: float, field_of_regard: float, time_step: float,
    distance_crs: str = "EPSG:4087", distance_scaling: float = 1.0,
):
    to_crs = Transformer.from_crs("EPSG:4326", distance_crs, always_xy=True)
    from_crs = Transformer.from_crs(distance_crs, "EPSG:4326", always_xy=True)
    distance = (
        compute_ground_velocity(altitude, inclination) * time_step
        + field_of_regard_to_swath_width(altitude, field_of_regard) / 2
    ) * distance_scaling
    planar = transform(to_crs.transform, geometry).buffer(distance)
    return split_polygon(transform(from_crs.transform, planar))


@spec("C21 C22", "tatc.utils.project_polygon_to_elevation")
def to_elevation(polygon: Polygon | MultiPolygon, elevation: float):
    if isinstance(polygon, Polygon):
        return Polygon(
            [(c[0], c[1], elevation) for c in polygon.exterior.coords],
            [[(c[0], c[1], elevation) for c in ring.coords] for ring in polygon.interiors],
        )
    return MultiPolygon([project_polygon_to_elevation(g, elevation) for g in polygon.geoms])
