"""Reference definitions: downlinks and latency."""
from datetime import datetime, timedelta
from typing import List, Union
import geopandas as gpd
import numpy as np
import pandas as pd
from shapely import geometry as geo
from tatc.analysis.coverage import _get_visible_interval_series
from tatc.analysis.latency import (
    _get_empty_downlinks_frame, _get_empty_latency_frame, _get_empty_reduce_frame,
)
from tatc.schemas.point import GroundStation
from tatc.schemas.satellite import Satellite

UTC = "datetime64[ns, utc]"
SECOND = timedelta(seconds=1)


@spec("C17 C16", "tatc.analysis.latency._get_empty_downlinks_frame")
def empty_downlinks():
    return gpd.GeoDataFrame({
        "station": pd.Series([], dtype="str"),
        "geometry": pd.Series([], dtype="object"),
        "satellite": pd.Series([], dtype="str"),
        "start": pd.Series([], dtype=UTC),
        "epoch": pd.Series([], dtype=UTC),
        "end": pd.Series([], dtype=UTC),
    }, crs="EPSG:4326")


@spec("C16 C17:schema", "tatc.analysis.latency.collect_downlinks")
def downlinks(stations: Union[GroundStation, List[GroundStation]], satellite: Satellite, start: datetime, end: datetime):
    records = []
    for station in stations if isinstance(stations, list) else [stations]:
        for period in _get_visible_interval_series(
                station, satellite, station.min_elevation_angle, start, end):
            if period.right - period.left >= station.min_access_time:
                records.append({
                    "station": station.name,
                    "geometry": geo.Point(station.longitude, station.latitude, station.elevation),
                    "satellite": satellite.name,
                    "start": period.left,
                    "end": period.right,
                    "epoch": period.mid,
                })
    if len(records) == 0:
        return _get_empty_downlinks_frame()
    return gpd.GeoDataFrame(records, crs="EPSG:4326").sort_values("start").reset_index(drop=True)


@spec("C17 C16", "tatc.analysis.latency._get_empty_latency_frame")
def empty_latency():
    return gpd.GeoDataFrame({
        "point_id": pd.Series([], dtype="int"),
        "geometry": pd.Series([], dtype="object"),
        "satellite": pd.Series([], dtype="str"),
        "instrument": pd.Series([], dtype="str"),
        "sat_alt": pd.Series([], dtype="float"),
        "sat_az": pd.Series([], dtype="float"),
        "observed": pd.Series([], dtype=UTC),
        "station": pd.Series([], dtype="str"),
        "downlinked": pd.Series([], dtype=UTC),
        "latency": pd.Series([], dtype="timedelta64[ns]"),
    }, crs="EPSG:4326")


@spec("C16 C17:schema", "tatc.analysis.latency.compute_latencies")
def latencies(observations: gpd.GeoDataFrame, downlinks: gpd.GeoDataFrame):
    if observations.empty or downlinks.empty:
        return _get_empty_latency_frame()
    # first downlink of the same satellite starting at or after the end of the observation
    frame = pd.merge_asof(
        observations.sort_values(by="end"), downlinks.sort_values(by="start"),
        by="satellite", left_on="end", right_on="start", direction="forward")
    frame["latency"] = frame["epoch_y"] - frame["epoch_x"]
    frame.rename(columns={
        "station_y": "station", "epoch_y": "downlinked", "epoch_x": "observed",
        "geometry_x": "geometry", "sat_alt_x": "sat_alt", "sat_az_x": "sat_az",
    }, inplace=True)
    frame = frame[[
        "point_id", "geometry", "satellite", "instrument", "sat_alt", "sat_az",
        "station", "downlinked", "latency", "observed",
    ]].copy()
    missing = frame["downlinked"].isna()
    if missing.any():
        frame.loc[missing, ["station", "downlinked", "latency"]] = [None, pd.NaT, pd.NaT]
    frame = gpd.GeoDataFrame(frame, geometry="geometry")
    frame.sort_values(by="observed", inplace=True)
    frame.reset_index(drop=True, inplace=True)
    return frame


@spec("C17 C16", "tatc.analysis.latency._get_empty_reduce_frame")
def empty_reduce():
    return gpd.GeoDataFrame({
        "point_id": pd.Series([], dtype="int"),
        "geometry": pd.Series([], dtype="object"),
        "latency": pd.Series([], dtype="timedelta64[ns]"),
        "samples": pd.Series([], dtype="int"),
    }, crs="EPSG:4326")


def duration(t):
    return pd.NaT if pd.isna(t) else timedelta(seconds=t)


@spec("C16 C17:schema", "tatc.analysis.latency.reduce_latencies")
def reduce(latency_observations: gpd.GeoDataFrame):
    if latency_observations.notna().empty:
        return _get_empty_reduce_frame()
    frame = latency_observations.copy()
    frame["latency"] = frame["latency"] / SECOND
    frame["samples"] = 1
    frame = frame.dissolve("point_id", aggfunc={"latency": "mean", "samples": "sum"}).reset_index()
    frame["latency"] = frame["latency"].apply(lambda t: duration(t))
    return frame


@spec("C16 C17:schema", "tatc.analysis.latency.grid_latencies")
def grid(reduced_latencies: gpd.GeoDataFrame, cells: gpd.GeoDataFrame):
    if reduced_latencies.empty:
        frame = cells.copy()
        frame["samples"] = 0
        frame["latency"] = None
        return frame
    frame = reduced_latencies.copy()
    frame["latency"] = frame["latency"] / SECOND
    frame = cells.sjoin(frame, how="inner", predicate="contains").reset_index(drop=True)
    samples = frame["samples"]
    frame = frame.dissolve(by="cell_id", aggfunc={
        "samples": "sum",
        "latency": lambda r: np.average(r, weights=samples.loc[r.index]),
    }).reset_index()
    frame["latency"] = frame["latency"].apply(lambda t: duration(t))
    return frame
