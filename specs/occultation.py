"""Reference definitions: radio occultation."""
from datetime import datetime
from typing import List, Tuple, Union
import geopandas as gpd
import numpy as np
import pandas as pd
from shapely.geometry import MultiPoint, Point
from skyfield.api import wgs84, Distance, Velocity
from skyfield.positionlib import Geocentric
from tatc.analysis.ro_coverage import _collect_ro_series, _get_empty_ro_frame
from tatc.constants import timescale
from tatc.schemas.satellite import Satellite


def dot(a, b):
    return np.einsum("ij,ij->j", a, b)


def scaled(a, k):
    return np.einsum("ij,j->ij", a, k)


@spec("C26", "tatc.analysis.ro_coverage._collect_ro_series")
def series(
    transmitter: Satellite, times: List[datetime], rx_pv: Geocentric, rx_v_u: List[float],
    rx_n_u: List[float], rx_b_u: List[float], max_yaw: float, range_elevation: Tuple[float],
):
    tx = transmitter.orbit.to_tle().get_orbit_track(times)
    link = tx - rx_pv
    x, v = link.position.m, link.velocity.m_per_s
    xt, vt = tx.position.m, tx.velocity.m_per_s
    ratio = dot(xt, x) / dot(x, x)
    # point of the link nearest to the centre of the Earth, and its rate
    p = xt - scaled(x, ratio)
    rate = (dot(vt, x) + dot(xt, v)) / dot(x, x) - 2 * (dot(v, x) * dot(xt, x) / dot(x, x) ** 2)
    p_dot = vt - scaled(v, ratio) - scaled(x, rate)
    between = np.sign(dot(p - xt, p - rx_pv.position.m)) < 0
    # look direction in the receiver frame
    flat = x - scaled(rx_n_u, dot(rx_n_u, x))
    level = x - scaled(rx_b_u, dot(rx_b_u, x))
    pitch = np.degrees(np.arctan2(dot(flat, rx_b_u), dot(flat, rx_v_u)))
    yaw = np.degrees(np.arctan2(dot(level, rx_n_u), dot(level, rx_v_u)))
    valid = np.logical_and(between, np.abs(yaw) % (180 - max_yaw) < max_yaw)
    changes = np.diff(valid)
    arcs = []
    arc = None
    for j in np.nonzero(valid)[0]:
        now = timescale.from_datetime(times[j])
        place = wgs84.geographic_position_of(Geocentric(
            Distance(m=p[:, j]).au, Velocity(km_per_s=p_dot[:, j] / 1000).au_per_d, now))
        if range_elevation[0] < place.elevation.m < range_elevation[1]:
            if arc is None:
                arc = {"tx": transmitter.name, "is_rising": pitch[j] > -90, "points": []}
            arc["points"].append({
                "time": times[j],
                "tangent_point": place,
                "rx_tx_pitch": pitch[j],
                "rx_tx_yaw": yaw[j],
                "tp_tx_azimuth": (tx[j] - place.at(now)).altaz()[1].degrees,
            })
            if j + 1 >= len(times) or changes[j]:
                arcs.append(arc)
                arc = None
        elif arc is not None:
            arcs.append(arc)
            arc = None
    return arcs


@spec("C17 C26", "tatc.analysis.ro_coverage._get_empty_ro_frame")
def empty():
    return gpd.GeoDataFrame({
        "receiver": pd.Series([], dtype="str"),
        "transmitter": pd.Series([], dtype="str"),
        "is_rising": pd.Series([], dtype="float"),
        "geometry": pd.Series([], dtype="object"),
        "position": pd.Series([], dtype="object"),
        "rx_tx_pitch": pd.Series([], dtype="float"),
        "rx_tx_yaw": pd.Series([], dtype="float"),
        "tp_tx_azimuth": pd.Series([], dtype="float"),
        "start": pd.Series([], dtype="datetime64[ns, utc]"),
        "end": pd.Series([], dtype="datetime64[ns, utc]"),
        "time": pd.Series([], dtype="datetime64[ns, utc]"),
    }, crs="EPSG:4326")


def coordinates(place):
    return [place.longitude.degrees, place.latitude.degrees, place.elevation.m]


def nearest(points, elevation):
    return min(
        range(len(points)),
        key=lambda i: abs(points[i]["tangent_point"].elevation.m - elevation))


@spec("C26 C17:schema", "tatc.analysis.ro_coverage.collect_ro_observations")
def observations(
    receiver: Satellite, transmitters: Union[Satellite, List[Satellite]], times: List[datetime],
    sample_elevation: float = 0, max_yaw: float = 65, range_elevation: Tuple[float] = (-200e3, 60e3),
):
    rx = receiver.orbit.to_tle().get_orbit_track(times)
    x, v = rx.position.m, rx.velocity.m_per_s
    ahead = v / np.linalg.norm(v, axis=0)
    normal = np.cross(x, v, 0, 0, -1).T
    normal = normal / np.linalg.norm(normal, axis=0)
    up = x / np.linalg.norm(x, axis=0)
    arcs = [
        arc
        for transmitter in (transmitters if isinstance(transmitters, list) else [transmitters])
        for arc in _collect_ro_series(
            transmitter, times, rx, ahead, normal, up, max_yaw, range_elevation)
    ]
    if len(arcs) == 0:
        return _get_empty_ro_frame()
    records = []
    for arc in arcs:
        points = arc["points"]
        k = nearest(points, sample_elevation)
        sample = points[k]
        place = sample["tangent_point"]
        records.append({
            "receiver": receiver.name,
            "transmitter": arc["tx"],
            "is_rising": arc["is_rising"],
            "geometry": MultiPoint([coordinates(p["tangent_point"]) for p in points]),
            "position": Point(place.longitude.degrees, place.latitude.degrees, place.elevation.m),
            "rx_tx_pitch": sample["rx_tx_pitch"],
            "rx_tx_yaw": sample["rx_tx_yaw"],
            "tp_tx_azimuth": sample["tp_tx_azimuth"],
            "start": points[0]["time"],
            "end": points[-1]["time"],
            "time": sample["time"],
        })
    return gpd.GeoDataFrame(records, crs="EPSG:4326").sort_values("time", ignore_index=True)
