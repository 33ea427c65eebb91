"""Reference definitions: orbit tracks, ground tracks and ground pixels."""
from datetime import datetime, timedelta
from typing import List, Optional, Union
import geopandas as gpd
import numpy as np
import pandas as pd
import pyproj
from shapely.geometry import Point, Polygon, MultiPolygon, LineString, MultiLineString
from shapely.ops import clip_by_rect, split
from skyfield.api import wgs84
from skyfield.framelib import itrs
from skyfield.functions import angle_between
from tatc.analysis.track import (
    OrbitCoordinate, OrbitOutput, _get_empty_orbit_track, _get_empty_ground_track,
    _get_utm_epsg_code, collect_orbit_track, collect_ground_track,
)
from tatc.constants import de421, EARTH_MEAN_RADIUS, timescale
from tatc.schemas.instrument import PointedInstrument
from tatc.schemas.satellite import Satellite
from tatc.utils import buffer_footprint, buffer_target, field_of_regard_to_swath_width

Mask = Optional[Union[Polygon, MultiPolygon, gpd.GeoDataFrame, gpd.GeoSeries]]


def nothing(dtype):
    return pd.Series([], dtype=dtype)


@spec("C17 C23", "tatc.analysis.track._get_empty_orbit_track")
def empty_orbit_track(velocity: bool = False, sat_sunlit: bool = False, solar_altaz: bool = False, solar_beta: bool = False):
    columns = {
        "time": nothing("datetime64[ns, utc]"),
        "satellite": nothing("str"),
        "instrument": nothing("str"),
        "swath_width": nothing("float"),
        "valid_obs": nothing("bool"),
        "geometry": nothing("object"),
    }
    if velocity:
        columns["velocity"] = nothing("object")
    if sat_sunlit:
        columns["sat_sunlit"] = nothing("bool")
    if solar_altaz:
        columns["solar_alt"] = nothing("float")
        columns["solar_az"] = nothing("float")
    if solar_beta:
        columns["solar_beta"] = nothing("float")
    return gpd.GeoDataFrame(columns, crs="EPSG:4326")


def inside(mask, longitude, latitude):
    point = Point(longitude, latitude)
    if isinstance(mask, (gpd.GeoDataFrame, gpd.GeoSeries)):
        return any(mask.contains(point))
    return mask.contains(point)


def triples(xyz):
    return [Point(p[0], p[1], p[2]) for p in xyz.T]


@spec("C23 C17:schema", "tatc.analysis.track.collect_orbit_track")
def orbit_track(
    satellite: Satellite, times: List[datetime], instrument_index: int = 0, elevation: float = 0,
    mask: Mask = None, coordinates: OrbitCoordinate = OrbitCoordinate.WGS84,
    orbit_output: OrbitOutput = OrbitOutput.POSITION,
    sat_sunlit: bool = False, solar_altaz: bool = False, solar_beta: bool = False,
):
    empty = _get_empty_orbit_track(
        orbit_output != OrbitOutput.POSITION, sat_sunlit, solar_altaz, solar_beta)
    if len(times) == 0:
        return empty
    instrument = satellite.instruments[instrument_index]
    track = satellite.orbit.to_tle().get_orbit_track(times)
    ground = wgs84.geographic_position_of(track)
    if mask is not None:
        keep = [
            inside(mask, x, y) for x, y in zip(ground.longitude.degrees, ground.latitude.degrees)]
        if not any(keep):
            return empty
        track = track[keep]
        ground = wgs84.geographic_position_of(track)
    if coordinates == OrbitCoordinate.WGS84:
        points = [
            Point(x, y, z) for x, y, z in
            zip(ground.longitude.degrees, ground.latitude.degrees, ground.elevation.m)]
    elif coordinates == OrbitCoordinate.ECEF:
        points = triples(ground.itrs_xyz.m)
    else:
        points = triples(track.xyz.m)
    valid = instrument.is_valid_observation(track)
    if len(track.t) == 1:
        valid = np.array([valid])
    records = []
    for i, time in enumerate(track.t.utc_datetime()):
        record = {
            "time": time,
            "satellite": satellite.name,
            "instrument": instrument.name,
            "swath_width": field_of_regard_to_swath_width(
                ground.elevation.m[i], instrument.field_of_regard, elevation),
            "valid_obs": valid[i],
            "geometry": points[i],
        }
        if orbit_output != OrbitOutput.POSITION:
            if coordinates == OrbitCoordinate.ECI:
                record["velocity"] = triples(track.velocity.m_per_s)[i]
            else:
                record["velocity"] = triples(track.frame_xyz_and_velocity(itrs)[1].m_per_s)[i]
        records.append(record)
    frame = gpd.GeoDataFrame(records, crs="EPSG:4326")
    if sat_sunlit:
        frame["sat_sunlit"] = track.is_sunlit(de421)
    if solar_altaz:
        altaz = (de421["earth"] + wgs84.geographic_position_of(track)).at(track.t).observe(
            de421["sun"]).apparent().altaz()
        frame["solar_alt"] = altaz[0].degrees
        frame["solar_az"] = altaz[1].degrees
    if solar_beta:
        normal = np.cross(track.position.m, track.velocity.m_per_s, axis=0)
        sun = de421["earth"].at(track.t).observe(de421["sun"]).position.m
        frame["solar_beta"] = np.degrees(np.pi / 2 - angle_between(normal, sun))
    if mask is not None and coordinates == OrbitCoordinate.WGS84:
        frame = gpd.clip(frame, mask).reset_index(drop=True)
    return frame


@spec("C17 C24", "tatc.analysis.track._get_empty_ground_track")
def empty_ground_track(sat_altaz: bool = False, solar_altaz: bool = False):
    columns = {
        "time": nothing("datetime64[ns, utc]"),
        "satellite": nothing("str"),
        "instrument": nothing("str"),
        "valid_obs": nothing("bool"),
        "geometry": nothing("object"),
    }
    if sat_altaz:
        columns["sat_alt"] = nothing("float")
        columns["sat_az"] = nothing("float")
    if solar_altaz:
        columns["solar_alt"] = nothing("float")
        columns["solar_az"] = nothing("float")
    return gpd.GeoDataFrame(columns, crs="EPSG:4326")


@spec("C24", "tatc.analysis.track._get_utm_epsg_code")
def utm_code(point: Point, swath_width: float):
    circle = point.buffer(np.degrees(swath_width / 2 / EARTH_MEAN_RADIUS))
    zones = pyproj.database.query_utm_crs_info(
        datum_name="WGS 84",
        area_of_interest=pyproj.aoi.AreaOfInterest(
            *clip_by_rect(circle, -180, -90, 180, 90).bounds),
    )
    if circle.bounds[3] > 84:
        return "EPSG:5041"
    if circle.bounds[1] < -80:
        return "EPSG:5042"
    return "EPSG:" + zones[0].code if len(zones) > 0 else "EPSG:4087"


def outline(mask):
    """A single geometry covering the mask."""
    if isinstance(mask, (Polygon, MultiPolygon)):
        return mask
    frame = mask if isinstance(mask, gpd.GeoDataFrame) else gpd.GeoDataFrame(geometry=mask)
    return frame.dissolve().iloc[0].geometry


def near(satellite, times, instrument, mask, track):
    ground = wgs84.geographic_position_of(track)
    zone = buffer_target(
        geometry=outline(mask),
        altitude=satellite.orbit.to_tle().get_altitude(),
        inclination=satellite.orbit.to_tle().get_inclination(),
        field_of_regard=instrument.field_of_regard,
        time_step=np.diff(times).mean() / timedelta(seconds=1),
    )
    return [inside(zone, x, y) for x, y in zip(ground.longitude.degrees, ground.latitude.degrees)]


def touching(instrument, mask, track, elevation):
    shapes = instrument.compute_footprint(track, elevation=elevation)
    return [
        any(mask.intersects(f)) if isinstance(mask, (gpd.GeoDataFrame, gpd.GeoSeries))
        else mask.intersects(f)
        for f in (shapes if isinstance(shapes, list) else [shapes])
    ]


@spec("C24 C17:schema", "tatc.analysis.track.collect_ground_track")
def ground_track(
    satellite: Satellite, times: List[datetime], instrument_index: int = 0, elevation: float = 0,
    mask: Mask = None, crs: str = "EPSG:4087", sat_altaz: bool = False, solar_altaz: bool = False,
):
    if len(times) == 0:
        return _get_empty_ground_track(sat_altaz, solar_altaz)
    track = satellite.orbit.to_tle().get_orbit_track(times)
    instrument = satellite.instruments[instrument_index]
    if mask is not None and len(times) > 1:
        keep = near(satellite, times, instrument, mask, track)
        if not any(keep):
            return _get_empty_ground_track(sat_altaz, solar_altaz)
        track = track[keep]
        keep = touching(instrument, mask, track, elevation)
        if not any(keep):
            return _get_empty_ground_track(sat_altaz, solar_altaz)
        track = track[keep]
    target = instrument.compute_footprint_center(track, elevation)
    valid = instrument.is_valid_observation(track, target)
    if len(track.t) == 1:
        valid = np.array([valid])
    if crs == "spice":
        shapes = instrument.compute_footprint(track, None, elevation)
        if len(track.t) == 1:
            shapes = [shapes]
    else:
        frame = collect_orbit_track(
            satellite, track.t.utc_datetime(), instrument_index, elevation)
        if crs == "utm":
            frame["utm_crs"] = frame.apply(
                lambda r: _get_utm_epsg_code(r.geometry, r.swath_width), axis=1)
            to_crs, from_crs = {}, {}
            for code in frame.utm_crs.unique():
                to_crs[code] = pyproj.Transformer.from_crs(
                    frame.crs, pyproj.CRS(code), always_xy=True)
                from_crs[code] = pyproj.Transformer.from_crs(
                    pyproj.CRS(code), frame.crs, always_xy=True)
            shapes = frame.apply(
                lambda r: buffer_footprint(
                    r.geometry, to_crs[r.utm_crs], from_crs[r.utm_crs], r.swath_width, elevation),
                axis=1).values
        else:
            forward = pyproj.Transformer.from_crs(frame.crs, pyproj.CRS(crs), always_xy=True)
            backward = pyproj.Transformer.from_crs(pyproj.CRS(crs), frame.crs, always_xy=True)
            shapes = frame.apply(
                lambda r: buffer_footprint(r.geometry, forward, backward, r.swath_width, elevation),
                axis=1).values
    frame = gpd.GeoDataFrame(
        [
            {
                "time": time,
                "satellite": satellite.name,
                "instrument": instrument.name,
                "valid_obs": valid[i],
                "geometry": shapes[i],
            }
            for i, time in enumerate(track.t.utc_datetime())
        ],
        crs="EPSG:4326",
    )
    if sat_altaz:
        altaz = (track - target.at(track.t)).altaz()
        frame["sat_alt"] = altaz[0].degrees
        frame["sat_az"] = altaz[1].degrees
    if solar_altaz:
        altaz = (de421["earth"] + target).at(track.t).observe(de421["sun"]).apparent().altaz()
        frame["solar_alt"] = altaz[0].degrees
        frame["solar_az"] = altaz[1].degrees
    if mask is not None:
        frame = gpd.clip(frame, mask).reset_index(drop=True)
    return frame


def orbit_numbers(satellite, times, frame):
    period = satellite.orbit.to_tle().get_orbit_period()
    return [(time - times[0]) // period for time in frame.time]


def moved(line, shift):
    return LineString([(c[0] + shift, c[1], c[2]) for c in line.coords])


def unwrap(line):
    if all([c[0] <= -180 for c in line.coords]):
        return moved(line, 360)
    if all([c[0] >= 180 for c in line.coords]):
        return moved(line, -360)
    return moved(line, 0)


def segment(part, elevation):
    """Line through the sub-satellite points, cut at the antimeridian."""
    points = part.geometry.apply(lambda p: Point(p.x, p.y, elevation))
    lon = part.geometry.apply(lambda p: p.x)
    if np.all(np.abs(np.diff(lon)) < 180):
        return LineString(points)
    shift = np.insert(np.cumsum(np.around(np.diff(lon) / 360)), 0, 0)
    line = LineString([Point(p.x - 360 * shift[i], p.y, p.z) for i, p in enumerate(points)])
    edge = -180 if shift.max() >= 1 else 180
    pieces = split(line, LineString([(edge, -180), (edge, 180)]))
    return MultiLineString([unwrap(piece) for piece in pieces.geoms])


@spec("C25 C17:schema", "tatc.analysis.track.compute_ground_track")
def aggregate_track(
    satellite: Satellite, times: List[datetime], instrument_index: int = 0, elevation: float = 0,
    mask: Mask = None, crs: str = "EPSG:4087", method: str = "point", dissolve_orbits: bool = True,
):
    if method == "point":
        frame = collect_ground_track(satellite, times, instrument_index, elevation, mask, crs)
        if not frame.empty:
            frame["orbit_id"] = orbit_numbers(satellite, times, frame)
            frame = frame[frame.valid_obs].dissolve(by="orbit_id").reset_index(drop=True)
        return frame.dissolve() if dissolve_orbits else frame
    if method != "line" or crs == "spice":
        raise ValueError
    frame = collect_orbit_track(satellite, times, instrument_index, elevation, None)
    frame["orbit_id"] = orbit_numbers(satellite, times, frame)
    frame["track_id"] = (frame.valid_obs != frame.valid_obs.shift()).astype("int").cumsum()
    frame = frame[frame.valid_obs].reset_index(drop=True)
    forward = pyproj.Transformer.from_crs(frame.crs, pyproj.CRS(crs), always_xy=True)
    backward = pyproj.Transformer.from_crs(pyproj.CRS(crs), frame.crs, always_xy=True)
    shapes = [
        buffer_footprint(segment(part, elevation), forward, backward, part.swath_width.mean(), elevation)
        for _, part in frame.groupby(["orbit_id", "track_id"])
    ]
    frame = frame.dissolve(by=["orbit_id", "track_id"]).reset_index(drop=True)
    frame.geometry = shapes
    if mask is not None:
        frame = gpd.clip(frame, mask).reset_index(drop=True)
    return frame.dissolve() if dissolve_orbits else frame


@spec("C24 C17:schema", "tatc.analysis.track.collect_ground_pixels")
def ground_pixels(
    satellite: Satellite, times: List[datetime], instrument_index: int = 0, elevation: float = 0,
    mask: Mask = None, sat_altaz: bool = False, solar_altaz: bool = False,
):
    if len(times) == 0:
        return _get_empty_ground_track(sat_altaz, solar_altaz)
    track = satellite.orbit.to_tle().get_orbit_track(times)
    instrument = satellite.instruments[instrument_index]
    if not isinstance(instrument, PointedInstrument) or not instrument.is_rectangular:
        raise ValueError
    if mask is not None and len(times) > 1:
        keep = near(satellite, times, instrument, mask, track)
        if not any(keep):
            return _get_empty_ground_track(sat_altaz, solar_altaz)
        track = track[keep]
        keep = touching(instrument, mask, track, elevation)
        if not any(keep):
            return _get_empty_ground_track(sat_altaz, solar_altaz)
        track = track[keep]
    pixels = instrument.compute_footprint_pixel_array(track, elevation)
    records = []
    for i, time in enumerate(track.t.utc_datetime()):
        for point in pixels[i].geoms if len(track.t) > 1 else pixels.geoms:
            records.append({
                "time": time,
                "satellite": satellite.name,
                "instrument": instrument.name,
                "valid_obs": instrument.is_valid_observation(
                    track[i], wgs84.latlon(point.y, point.x, point.z)),
                "geometry": point,
            })
    frame = gpd.GeoDataFrame(records, crs="EPSG:4326")
    if sat_altaz:
        views = [
            (
                track[list(track.t.utc_datetime()).index(r["time"])]
                - wgs84.latlon(r["geometry"].y, r["geometry"].x, r["geometry"].z).at(
                    timescale.from_datetime(r["time"]))
            ).altaz()
            for r in records
        ]
        frame["sat_alt"] = [v[0].degrees for v in views]
        frame["sat_az"] = [v[1].degrees for v in views]
    if solar_altaz:
        views = [
            (de421["earth"] + wgs84.latlon(r["geometry"].y, r["geometry"].x, r["geometry"].z)).at(
                timescale.from_datetime(r["time"])).observe(de421["sun"]).apparent().altaz()
            for r in records
        ]
        frame["solar_alt"] = [v[0].degrees for v in views]
        frame["solar_az"] = [v[1].degrees for v in views]
    if mask is not None:
        frame = gpd.clip(frame, mask).reset_index(drop=True)
    return frame
