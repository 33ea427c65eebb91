"""Reference definitions: splitting and wrapping polygons."""
import geopandas as gpd
import numpy as np
from shapely import make_valid
from shapely.geometry import Point, Polygon, MultiPolygon, GeometryCollection, LineString
from shapely.ops import split
from tatc.utils import (
    split_polygon, _split_polygon_antimeridian, _split_polygon_north_pole,
    _split_polygon_south_pole, _wrap_polygon_over_antimeridian,
    _wrap_polygon_over_north_pole, _wrap_polygon_over_south_pole,
    _convert_collection_to_polygon,
)


def flat(parts):
    return MultiPolygon([
        g for p in parts for g in (p.geoms if isinstance(p, MultiPolygon) else [p])
    ])


def mapped(polygon, f):
    """The polygon with f applied to each vertex, unless the result is invalid."""
    result = Polygon(
        [f(c) for c in polygon.exterior.coords],
        [[f(c) for c in ring.coords] for ring in polygon.interiors],
    )
    return result if result.is_valid else polygon


@spec("C22", "tatc.utils._wrap_polygon_over_north_pole")
def wrap_north(polygon: Polygon | MultiPolygon):
    if isinstance(polygon, Polygon):
        if all(c[1] <= 90 for c in polygon.exterior.coords):
            return polygon
        shift = 180 if all(c[0] <= 0 for c in polygon.exterior.coords) else -180
        return mapped(polygon, lambda c: [c[0] + shift, 180 - c[1]] if c[1] >= 90 else [c[0], c[1]])
    if isinstance(polygon, MultiPolygon):
        return flat([_wrap_polygon_over_north_pole(p) for p in polygon.geoms])
    raise ValueError


@spec("C22", "tatc.utils._wrap_polygon_over_south_pole")
def wrap_south(polygon: Polygon | MultiPolygon):
    if isinstance(polygon, Polygon):
        if all(c[1] >= -90 for c in polygon.exterior.coords):
            return polygon
        shift = 180 if all(c[0] <= 0 for c in polygon.exterior.coords) else -180
        return mapped(polygon, lambda c: [c[0] + shift, -180 - c[1]] if c[1] <= -90 else [c[0], c[1]])
    if isinstance(polygon, MultiPolygon):
        return flat([_wrap_polygon_over_south_pole(p) for p in polygon.geoms])
    raise ValueError


def cut(polygon, pole):
    """Cut along the pole, then cut parts beyond it along the prime meridian."""
    parts = split(polygon, LineString([(-360, pole), (360, pole)]))
    meridian = LineString([(0, pole), (0, 2 * pole)])
    for part in parts.geoms:
        if part.crosses(meridian):
            parts = GeometryCollection(
                [g for g in parts.geoms if g != part] + [g for g in split(part, meridian).geoms])
    if isinstance(parts, GeometryCollection):
        parts = _convert_collection_to_polygon(parts)
    return parts


@spec("C22", "tatc.utils._split_polygon_north_pole")
def split_north(polygon: Polygon | MultiPolygon):
    if isinstance(polygon, Polygon):
        if all(c[1] <= 90 for c in polygon.exterior.coords):
            return polygon
        return _wrap_polygon_over_north_pole(cut(polygon, 90))
    if isinstance(polygon, MultiPolygon):
        return flat([_split_polygon_north_pole(p) for p in polygon.geoms])
    raise ValueError


@spec("C22", "tatc.utils._split_polygon_south_pole")
def split_south(polygon: Polygon | MultiPolygon):
    if isinstance(polygon, Polygon):
        if all(c[1] >= -90 for c in polygon.exterior.coords):
            return polygon
        return _wrap_polygon_over_south_pole(cut(polygon, -90))
    if isinstance(polygon, MultiPolygon):
        return flat([_split_polygon_south_pole(p) for p in polygon.geoms])
    raise ValueError


@spec("C22", "tatc.utils._wrap_polygon_over_antimeridian")
def wrap_antimeridian(polygon: Polygon | MultiPolygon):
    if isinstance(polygon, Polygon):
        if all(c[0] >= -180 and c[0] <= 180 for c in polygon.exterior.coords):
            return polygon
        if all(c[0] <= -180 for c in polygon.exterior.coords):
            return mapped(polygon, lambda c: [c[0] + 360, c[1]])
        if all(c[0] >= 180 for c in polygon.exterior.coords):
            return mapped(polygon, lambda c: [c[0] - 360, c[1]])
        return polygon
    if isinstance(polygon, MultiPolygon):
        return flat([_wrap_polygon_over_antimeridian(p) for p in polygon.geoms])
    raise ValueError


@spec("C22", "tatc.utils._convert_collection_to_polygon")
def to_polygon(collection: GeometryCollection):
    parts = [p for p in collection.geoms if isinstance(p, Polygon)]
    for g in collection.geoms:
        if isinstance(g, MultiPolygon):
            parts.extend(g.geoms)
    return parts[0] if len(parts) == 1 else MultiPolygon(parts)


def polygonal(parts):
    return _convert_collection_to_polygon(parts) if isinstance(parts, GeometryCollection) else parts


@spec("C22", "tatc.utils._split_polygon_antimeridian")
def split_antimeridian(polygon: Polygon | MultiPolygon):
    if isinstance(polygon, Polygon):
        lon = np.array([c[0] for c in polygon.exterior.coords])
        if all(np.abs(np.diff(lon)) < 180):
            return polygon
        if Polygon(zip(np.cos(np.radians(lon)), np.sin(np.radians(lon)))).contains(Point(0, 0)):
            coords = polygon.exterior.coords[0:-1]
            coords.sort(key=lambda c: c[0])
            pole = 90 if np.array(coords)[:, 1].mean() > 0 else -90
            lat = np.interp(180, [coords[-1][0], coords[0][0] + 360], [coords[-1][1], coords[0][1]])
            around = Polygon(
                [(-180, pole), (-180, lat)] + coords + [(180, lat), (180, pole), (-180, pole)],
                polygon.interiors,
            )
            return polygonal(split(around, LineString([(0, -180), (0, 180)])))
        shift = np.insert(np.cumsum(np.around(np.diff(lon) / 360)), 0, 0)
        unrolled = Polygon(
            [(c[0] - 360 * shift[i], c[1]) for i, c in enumerate(polygon.exterior.coords)],
            [
                [(c[0] - 360 * np.interp(c[0], np.sort(lon), shift[np.argsort(lon)]), c[1]) for c in r.coords]
                for r in polygon.interiors
            ],
        )
        edge = -180 if shift.max() >= 1 else 180
        parts = split(unrolled, LineString([(edge, -180), (edge, 180)]))
        return _wrap_polygon_over_antimeridian(polygonal(parts))
    if isinstance(polygon, MultiPolygon):
        return flat([_split_polygon_antimeridian(p) for p in polygon.geoms])
    raise ValueError


@spec("C22", "tatc.utils.split_polygon")
def split_all(polygon: Polygon | MultiPolygon):
    result = _split_polygon_north_pole(_split_polygon_south_pole(_split_polygon_antimeridian(polygon)))
    return result if result.is_valid else polygonal(make_valid(result))


@spec("C22 C29", "tatc.utils.normalize_geometry")
def normalize(geometry: Polygon | MultiPolygon | gpd.GeoDataFrame | gpd.GeoSeries):
    if isinstance(geometry, (Polygon, MultiPolygon)):
        if not geometry.is_valid:
            raise ValueError
        frame = gpd.GeoDataFrame(geometry=gpd.GeoSeries([geometry]), crs="EPSG:4326")
    elif isinstance(geometry, gpd.GeoSeries):
        frame = gpd.GeoDataFrame(geometry=geometry, crs="EPSG:4326")
    else:
        frame = geometry
    if isinstance(frame, gpd.GeoDataFrame):
        frame = frame.copy()
        frame["geometry"] = frame.apply(lambda r: split_polygon(r.geometry), axis=1)
    return frame


