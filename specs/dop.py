"""Reference definitions: dilution of precision."""
from datetime import datetime
from typing import List
import geopandas as gpd
import numpy as np
import pandas as pd
from skyfield.api import wgs84
from tatc.analysis.dop import DopMethod
from tatc.constants import timescale
from tatc.schemas.point import Point
from tatc.schemas.satellite import Satellite


@spec("C27 C17:schema", "tatc.analysis.dop.compute_dop")
def dop(times: List[datetime], point: Point, satellites: List[Satellite], min_elevation: float, dop_method: DopMethod, min_count_visible: int = 3):
    place = wgs84.latlon(point.latitude, point.longitude, point.elevation)
    here = place.at(timescale.from_datetimes(times))
    views = [(s.orbit.to_tle().get_orbit_track(times) - here).altaz() for s in satellites]
    el = np.array([v[0].radians for v in views])
    az = np.array([v[1].radians for v in views])
    r = np.array([v[2].m for v in views])
    visible = el >= np.radians(min_elevation)
    count = np.sum(visible, axis=0)
    x = r * np.cos(el) * np.cos(az)
    y = r * np.cos(el) * np.sin(az)
    z = r * np.sin(el)

    def value(i):
        if count[i] <= min_count_visible:
            return np.nan
        seen = el[:, i] >= np.radians(min_elevation)
        h = np.column_stack((
            x[seen, i] / r[seen, i], y[seen, i] / r[seen, i], z[seen, i] / r[seen, i],
            np.ones((sum(seen), 1)),
        ))
        try:
            q = np.linalg.solve(h.T @ h, np.eye(4))
        except np.linalg.LinAlgError:
            return np.nan
        if dop_method == DopMethod.GDOP:
            return np.sqrt(np.trace(q))
        if dop_method == DopMethod.PDOP:
            return np.sqrt(q[0, 0] + q[1, 1] + q[2, 2])
        if dop_method == DopMethod.HDOP:
            return np.sqrt(q[0, 0] + q[1, 1])
        if dop_method == DopMethod.VDOP:
            return np.sqrt(q[2, 2])
        if dop_method == DopMethod.TDOP:
            return np.sqrt(q[3, 3])
        raise ValueError

    values = np.array([value(i) for i in range(len(times))])
    return gpd.GeoDataFrame({
        "dop": pd.Series(values, dtype="float", index=times),
        "geometry": pd.Series(
            gpd.points_from_xy([point.longitude] * len(values), [point.latitude] * len(values)),
            dtype="object", index=times),
    }, crs="EPSG:4326")
