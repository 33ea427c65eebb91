"""Reference definitions: coverage analysis."""
from datetime import datetime, timedelta, timezone
from typing import List, Union
import geopandas as gpd
import numpy as np
import pandas as pd
from shapely import geometry as geo
from skyfield.api import wgs84
from tatc.constants import de421, timescale
from tatc.analysis.coverage import (
    _get_visible_interval_series, _get_empty_coverage_frame, _get_empty_aggregate_frame,
    _get_empty_reduce_frame, collect_observations,
)
from tatc.schemas.instrument import PointedInstrument
from tatc.schemas.point import Point
from tatc.schemas.satellite import Satellite
from tatc.utils import compute_min_elevation_angle, compute_max_access_time, compute_footprint

UTC = "datetime64[ns, utc]"


def altitude_at(satellite, time):
    return wgs84.geographic_position_of(
        satellite.orbit.to_tle().get_orbit_track(time)).elevation.m


def utc(time):
    return pd.Timestamp(time.astimezone(tz=timezone.utc))


def stamp(t):
    return pd.Timestamp(t.utc_datetime())


@spec("C11", "tatc.analysis.coverage._get_visible_interval_series")
def visible_intervals(point: Point, satellite: Satellite, min_elevation_angle: float, start: datetime, end: datetime):
    longest = timedelta(seconds=compute_max_access_time(
        altitude_at(satellite, start), min_elevation_angle))
    times, events = satellite.orbit.to_tle().get_observation_events(
        point, start, end, min_elevation_angle)
    periods = []
    if len(events) > 0 and np.all(events == 1):
        # culmination only: visible throughout
        periods.append(pd.Interval(left=utc(start), right=utc(end)))
    elif len(events) > 0:
        rises, sets = times[events == 0], times[events == 2]
        if len(sets) > 0:
            first = sets[0].utc_datetime()
            if (len(rises) == 0 or first < rises[0].utc_datetime()) and start < first:
                # visible at the start
                periods.append(pd.Interval(left=utc(start), right=pd.Timestamp(first)))
        for rise in rises:
            t = rise.utc_datetime()
            matches = np.logical_and(
                t < sets.utc_datetime(), sets.utc_datetime() < t + 2 * longest)
            if np.any(matches):
                periods.append(pd.Interval(left=pd.Timestamp(t), right=stamp(sets[matches][0])))
        if len(rises) > 0:
            last = rises[-1].utc_datetime()
            if (len(sets) == 0 or last > sets[-1].utc_datetime()) and last < end:
                # visible at the end
                periods.append(pd.Interval(left=pd.Timestamp(last), right=utc(end)))
    return pd.Series(periods, dtype="interval")


@spec("C17 C12", "tatc.analysis.coverage._get_empty_coverage_frame")
def empty_coverage(omit_solar: bool):
    columns = {
        "point_id": pd.Series([], dtype="int"),
        "geometry": pd.Series([], dtype="object"),
        "satellite": pd.Series([], dtype="str"),
        "instrument": pd.Series([], dtype="str"),
        "start": pd.Series([], dtype=UTC),
        "epoch": pd.Series([], dtype=UTC),
        "end": pd.Series([], dtype=UTC),
        "sat_alt": pd.Series(dtype="float"),
        "sat_az": pd.Series(dtype="float"),
    }
    if not omit_solar:
        columns["sat_sunlit"] = pd.Series(dtype="bool")
        columns["solar_alt"] = pd.Series(dtype="float")
        columns["solar_az"] = pd.Series(dtype="float")
        columns["solar_time"] = pd.Series(dtype="float")
    return gpd.GeoDataFrame(columns, crs="EPSG:4326")


def in_view(point, satellite, instrument, period):
    """Long enough, permitted by sunlight, and inside the footprint of a pointed instrument."""
    track = satellite.orbit.to_tle().get_orbit_track(period.mid)
    place = wgs84.latlon(point.latitude, point.longitude, point.elevation)
    if not (instrument.min_access_time <= period.right - period.left):
        return False
    if not instrument.is_valid_observation(track, place):
        return False
    if isinstance(instrument, PointedInstrument):
        footprint = compute_footprint(
            orbit_track=track,
            cross_track_field_of_view=instrument.cross_track_field_of_view,
            along_track_field_of_view=instrument.along_track_field_of_view,
            roll_angle=instrument.roll_angle,
            pitch_angle=instrument.pitch_angle,
            is_rectangular=instrument.is_rectangular,
            elevation=point.elevation,
        )
        if not footprint.contains(geo.Point(point.longitude, point.latitude)):
            return False
    return True


@spec("C12 C17:schema", "tatc.analysis.coverage.collect_observations")
def observations(point: Point, satellite: Satellite, start: datetime, end: datetime, instrument_index: int = 0, omit_solar: bool = True):
    instrument = satellite.instruments[instrument_index]
    min_elevation_angle = compute_min_elevation_angle(
        altitude_at(satellite, start), instrument.field_of_regard)
    half = instrument.min_access_time / 2
    records = []
    for period in _get_visible_interval_series(point, satellite, min_elevation_angle, start, end):
        if in_view(point, satellite, instrument, period):
            fixed = instrument.access_time_fixed
            records.append({
                "point_id": point.id,
                "geometry": geo.Point(point.longitude, point.latitude, point.elevation),
                "satellite": satellite.name,
                "instrument": instrument.name,
                "start": period.mid - half if fixed else period.left,
                "end": period.mid + half if fixed else period.right,
                "epoch": period.mid,
            })
    if len(records) == 0:
        return _get_empty_coverage_frame(omit_solar)
    frame = gpd.GeoDataFrame(records, crs="EPSG:4326")
    place = wgs84.latlon(point.latitude, point.longitude, point.elevation)
    times = timescale.from_datetimes(frame.epoch)
    track = satellite.orbit.to_tle().get_orbit_track(frame.epoch)
    altaz = (track - place.at(times)).altaz()
    frame["sat_alt"] = altaz[0].degrees
    frame["sat_az"] = altaz[1].degrees
    if not omit_solar:
        sun = (de421["earth"] + place).at(times).observe(de421["sun"]).apparent()
        frame["sat_sunlit"] = track.is_sunlit(de421)
        frame["solar_alt"] = sun.altaz()[0].degrees
        frame["solar_az"] = sun.altaz()[1].degrees
        frame["solar_time"] = sun.hadec()[0].hours + 12
    return frame


@spec("C13 C17:schema", "tatc.analysis.coverage.collect_multi_observations")
def multi_observations(point: Point, satellites: Union[Satellite, List[Satellite]], start: datetime, end: datetime, omit_solar: bool = True):
    frames = []
    for system in satellites if isinstance(satellites, list) else [satellites]:
        for satellite in system.generate_members():
            for k in range(len(satellite.instruments)):
                frames.append(collect_observations(point, satellite, start, end, k, omit_solar))
    return pd.concat(frames).sort_values("start").reset_index(drop=True)


@spec("C17 C14", "tatc.analysis.coverage._get_empty_aggregate_frame")
def empty_aggregate():
    return gpd.GeoDataFrame({
        "point_id": pd.Series([], dtype="int"),
        "geometry": pd.Series([], dtype="object"),
        "satellite": pd.Series([], dtype="str"),
        "instrument": pd.Series([], dtype="str"),
        "start": pd.Series([], dtype=UTC),
        "epoch": pd.Series([], dtype=UTC),
        "end": pd.Series([], dtype=UTC),
        "access": pd.Series([], dtype="timedelta64[ns]"),
        "revisit": pd.Series([], dtype="timedelta64[ns]"),
    }, crs="EPSG:4326")


@spec("C14 C17:schema", "tatc.analysis.coverage.aggregate_observations")
def aggregate(observations: gpd.GeoDataFrame):
    if observations.empty:
        return _get_empty_aggregate_frame()
    frames = []
    for _, frame in observations.groupby("point_id"):
        frame = frame.sort_values("start")
        # a new group begins when every earlier observation has ended
        frame["obs"] = (frame["start"] > frame["end"].shift().cummax()).cumsum()
        frame = frame.dissolve("obs", aggfunc={
            "point_id": "first",
            "satellite": ", ".join,
            "instrument": ", ".join,
            "start": "min",
            "epoch": "mean",
            "end": "max",
        })
        frame["access"] = frame["end"] - frame["start"]
        frame["revisit"] = frame["start"] - frame["end"].shift()
        frames.append(frame)
    return pd.concat(frames).reset_index(drop=True)


@spec("C17 C15", "tatc.analysis.coverage._get_empty_reduce_frame")
def empty_reduce():
    return gpd.GeoDataFrame({
        "point_id": pd.Series([], dtype="int"),
        "geometry": pd.Series([], dtype="object"),
        "access": pd.Series([], dtype="timedelta64[ns]"),
        "revisit": pd.Series([], dtype="timedelta64[ns]"),
        "samples": pd.Series([], dtype="int"),
    }, crs="EPSG:4326")


SECOND = timedelta(seconds=1)


def restore(frame, *names):
    for name in names:
        frame[name] = frame[name].apply(lambda t: pd.NaT if pd.isna(t) else timedelta(seconds=t))


@spec("C15 C17:schema", "tatc.analysis.coverage.reduce_observations")
def reduce(aggregated_observations: gpd.GeoDataFrame):
    if aggregated_observations.empty:
        return _get_empty_reduce_frame()
    frame = aggregated_observations.copy()
    frame["access"] = frame["access"] / SECOND
    frame["revisit"] = frame["revisit"] / SECOND
    frame["samples"] = 1
    frame = frame.dissolve(
        "point_id", aggfunc={"access": "mean", "revisit": "mean", "samples": "sum"}).reset_index()
    frame["access"] = frame["access"].apply(lambda t: timedelta(seconds=t))
    frame["revisit"] = frame["revisit"].apply(
        lambda t: pd.NaT if pd.isna(t) else timedelta(seconds=t))
    return frame


@spec("C15 C17:schema", "tatc.analysis.coverage.grid_observations")
def grid(reduced_observations: gpd.GeoDataFrame, cells: gpd.GeoDataFrame):
    if reduced_observations.empty:
        frame = cells.copy()
        frame["samples"] = 0
        frame["access"] = None
        frame["revisit"] = None
        return frame
    frame = reduced_observations.copy()
    frame["access"] = frame["access"] / SECOND
    frame["revisit"] = frame["revisit"] / SECOND
    frame = cells.sjoin(frame, how="inner", predicate="contains").reset_index(drop=True)
    samples = frame["samples"]
    frame = frame.dissolve(by="cell_id", aggfunc={
        "samples": "sum",
        "access": lambda r: np.average(r, weights=samples.loc[r.index]),
        "revisit": lambda r: np.average(r, weights=samples.loc[r.index]),
    }).reset_index()
    frame["access"] = frame["access"].apply(lambda t: timedelta(seconds=t))
    frame["revisit"] = frame["revisit"].apply(
        lambda t: pd.NaT if pd.isna(t) else timedelta(seconds=t))
    return frame
