"""Reference definitions: sample points and cells."""
from typing import Optional, Union
import geopandas as gpd
import numpy as np
from shapely.geometry import Point, Polygon, MultiPolygon
from tatc.constants import EARTH_MEAN_RADIUS
from tatc.utils import compute_number_samples
from tatc.generation.points import (
    _compute_fibonacci_lattice_point_latitude, _compute_fibonacci_lattice_point_longitude,
    _compute_equally_spaced_point_id, _generate_equally_spaced_indices,
    _generate_equally_spaced_points, _get_bounds,
)
from tatc.generation.cells import _generate_equally_spaced_cells


@spec("C28", "tatc.generation.points._compute_fibonacci_lattice_point_latitude")
def lattice_latitude(index: int, count: int) -> float:
    return np.degrees(np.arcsin(2 * (index + 1) / (count + 2) - 1))


@spec("C28", "tatc.generation.points._compute_fibonacci_lattice_point_longitude")
def lattice_longitude(index: int) -> float:
    longitude = np.mod(360 * index / ((1 + np.sqrt(5)) / 2), 360)
    return longitude - 360 if longitude > 180 else longitude


def bounds(mask):
    if isinstance(mask, (Polygon, MultiPolygon)):
        if not mask.is_valid:
            raise ValueError
        box = mask.bounds
    else:
        box = [-180, -90, 180, 90]
    return box[0], box[1], 180 if box[2] == -180 else box[2], box[3]


@spec("C28", "tatc.generation.points.generate_fibonacci_lattice_points")
def fibonacci(distance: float, elevation: float = 0, mask: Optional[Union[Polygon, MultiPolygon]] = None):
    count = compute_number_samples(distance)
    west, south, east, north = bounds(mask)

    def longitude(i):
        x = _compute_fibonacci_lattice_point_longitude(i)
        return x + 360 if mask is not None and east > 180 and x < 0 else x

    def latitude(i):
        return _compute_fibonacci_lattice_point_latitude(i, count)

    if mask is None:
        ids = range(count)
    else:
        ids = [
            i for i in range(count)
            if south <= latitude(i) <= north and west <= longitude(i) <= east
        ]
    frame = gpd.GeoDataFrame(
        {"point_id": ids, "geometry": [Point(longitude(i), latitude(i), elevation) for i in ids]},
        crs="EPSG:4326",
    )
    return frame if mask is None else gpd.clip(frame, mask).reset_index(drop=True)


@spec("C29", "tatc.generation.points._compute_equally_spaced_point_id")
def grid_id(i: int, j: int, theta_i: float, theta_j: float) -> int:
    columns = int(np.round(360 / theta_i))
    return int(j * columns + np.mod(i, columns))


@spec("C29 C28", "tatc.generation.points._get_bounds")
def get_bounds(mask: Union[Polygon, MultiPolygon]):
    return bounds(mask)


def steps(low, high, origin, theta):
    return range(int(np.round((low + origin) / theta)), int(np.round((high + origin) / theta)))


@spec("C29", "tatc.generation.points._generate_equally_spaced_indices")
def indices(theta_longitude: float, theta_latitude: float, mask: Union[Polygon, MultiPolygon] = None, strips: str = None):
    west, south, east, north = _get_bounds(mask)
    columns = steps(west, east, 180, theta_longitude)
    rows = steps(south, north, 90, theta_latitude)
    if strips == "lat":
        return [(0, j) for j in rows]
    if strips == "lon":
        return [(i, 0) for i in columns]
    return [(i, j) for j in rows for i in columns]


@spec("C29", "tatc.generation.points._generate_equally_spaced_points", private=False)
def grid_points(theta_longitude: float, theta_latitude: float, elevation: float = 0, mask: Optional[Union[Polygon, MultiPolygon]] = None):
    pairs = _generate_equally_spaced_indices(theta_longitude, theta_latitude, mask)
    frame = gpd.GeoDataFrame(
        {
            "point_id": [
                _compute_equally_spaced_point_id(i, j, theta_longitude, theta_latitude) for i, j in pairs],
            "geometry": [
                Point((i + 0.5) * theta_longitude - 180, (j + 0.5) * theta_latitude - 90, elevation)
                for i, j in pairs],
        },
        crs="EPSG:4326",
    )
    return frame if mask is None else gpd.clip(frame, mask).reset_index(drop=True)


@spec("C29", "tatc.generation.points.generate_equally_spaced_points")
def equally_spaced_points(distance: float, elevation: float = 0, mask: Optional[Union[Polygon, MultiPolygon]] = None):
    theta = np.degrees(distance / EARTH_MEAN_RADIUS)
    return _generate_equally_spaced_points(theta, theta, elevation, mask)


@spec("C29", "tatc.generation.cells._generate_equally_spaced_cells", private=False)
def grid_cells(theta_longitude: float, theta_latitude: float, elevation: float = 0, mask: Optional[Union[Polygon, MultiPolygon]] = None, strips: str = None):
    pairs = _generate_equally_spaced_indices(theta_longitude, theta_latitude, mask, strips)
    west, south, east, north = _get_bounds(mask)

    def cell(i, j):
        w = west if strips == "lat" else -180 + i * theta_longitude
        e = east if strips == "lat" else -180 + (i + 1) * theta_longitude
        s = south if strips == "lon" else -90 + j * theta_latitude
        n = north if strips == "lon" else -90 + (j + 1) * theta_latitude
        return Polygon([
            (e, s, elevation), (e, n, elevation), (w, n, elevation), (w, s, elevation), (e, s, elevation)])

    frame = gpd.GeoDataFrame(
        {
            "cell_id": [
                _compute_equally_spaced_point_id(i, j, theta_longitude, theta_latitude) for i, j in pairs],
            "geometry": [cell(i, j) for i, j in pairs],
        },
        crs="EPSG:4326",
    )
    if mask is not None:
        frame = gpd.clip(frame, mask).reset_index(drop=True)
        frame.geometry = frame.geometry.convex_hull
    return frame


@spec("C29", "tatc.generation.cells.generate_equally_spaced_cells")
def equally_spaced_cells(distance: float, elevation: float = 0, mask: Optional[Union[Polygon, MultiPolygon]] = None, strips: str = None):
    theta = np.degrees(distance / EARTH_MEAN_RADIUS)
    return _generate_equally_spaced_cells(theta, theta, elevation, mask, strips)
