"""Reference definitions: instruments."""
from typing import Union
import numpy as np
from shapely.geometry import MultiPoint, Point
from skyfield.api import wgs84
from skyfield.positionlib import Geocentric
from skyfield.toposlib import GeographicPosition
from tatc.constants import de421
from tatc.schemas.instrument import Instrument, PointedInstrument
from tatc.utils import (
    compute_footprint, compute_min_elevation_angle, compute_projected_ray_position,
    field_of_regard_to_swath_width,
)


@spec("C20", "tatc.schemas.instrument.Instrument.get_swath_width")
def swath_width(self: Instrument, height: float) -> float:
    return field_of_regard_to_swath_width(height, self.field_of_regard)


@spec("C20 C11", "tatc.schemas.instrument.Instrument.get_min_elevation_angle")
def min_elevation_angle(self: Instrument, height: float) -> float:
    return compute_min_elevation_angle(height, self.field_of_regard)


@spec("C20 C24", "tatc.schemas.instrument.Instrument.compute_footprint")
def footprint(self: Instrument, orbit_track: Geocentric, number_points: int = None, elevation: float = 0):
    return compute_footprint(
        orbit_track, self.field_of_regard, self.field_of_regard, 0, 0, False, number_points, elevation)


@spec("C20 C23", "tatc.schemas.instrument.Instrument.compute_footprint_center")
def footprint_center(self: Instrument, orbit_track: Geocentric, elevation: float = 0):
    return compute_projected_ray_position(orbit_track, 0, 0, 0, 0, False, 0, elevation)


@spec("C20 C12 C24", "tatc.schemas.instrument.Instrument.is_valid_observation")
def is_valid_observation(self: Instrument, orbit_track: Geocentric, target: GeographicPosition = None):
    place = wgs84.subpoint_of(orbit_track) if target is None else target
    valid = np.ones(np.size(orbit_track.t), dtype=bool)
    if self.req_self_sunlit is not None:
        valid = valid & (orbit_track.is_sunlit(de421) == self.req_self_sunlit)
    if self.req_target_sunlit is not None:
        sun = (de421["earth"] + place).at(orbit_track.t).observe(de421["sun"]).apparent()
        valid = valid & ((sun.altaz()[0].degrees > 0) == self.req_target_sunlit)
    return valid if np.size(orbit_track.t) > 1 else bool(valid[0])


@spec("C20 C24", "tatc.schemas.instrument.PointedInstrument.get_cross_track_instantaneous_field_of_view")
def cross_ifov(self: PointedInstrument) -> float:
    return self.cross_track_field_of_view / (self.cross_track_pixels * (1 - self.cross_track_oversampling))


@spec("C20 C24", "tatc.schemas.instrument.PointedInstrument.get_along_track_instantaneous_field_of_view")
def along_ifov(self: PointedInstrument) -> float:
    return self.along_track_field_of_view / (self.along_track_pixels * (1 - self.along_track_oversampling))


@spec("C20 C24", "tatc.schemas.instrument.PointedInstrument.compute_footprint")
def pointed_footprint(self: PointedInstrument, orbit_track: Geocentric, number_points: int = None, elevation: float = 0):
    return compute_footprint(
        orbit_track, self.cross_track_field_of_view, self.along_track_field_of_view,
        self.roll_angle, self.pitch_angle, self.is_rectangular, number_points, elevation)


@spec("C20 C23", "tatc.schemas.instrument.PointedInstrument.compute_footprint_center")
def pointed_center(self: PointedInstrument, orbit_track: Geocentric, elevation: float = 0):
    return compute_projected_ray_position(
        orbit_track, 0, 0, self.roll_angle, self.pitch_angle, False, 0, elevation)


@spec("C20 C24", "tatc.schemas.instrument.PointedInstrument.get_pixel_cone_and_clock_angle")
def cone_and_clock(self: PointedInstrument, cross_track_index: int, along_track_index: int):
    """Offsets are measured from the centre: rightwards and forwards positive."""
    cross_pitch = self.cross_track_field_of_view / self.cross_track_pixels * (1 - self.cross_track_oversampling)
    along_pitch = self.along_track_field_of_view / self.along_track_pixels * (1 - self.along_track_oversampling)
    x = cross_pitch * (cross_track_index + 0.5 - self.cross_track_pixels / 2)
    y = along_pitch * (self.along_track_pixels / 2 - (along_track_index + 0.5))
    return np.sqrt(x**2 + y**2), np.arctan2(y, x)


@spec("C20 C24", "tatc.schemas.instrument.PointedInstrument.compute_projected_pixel_position")
def pixel_position(self: PointedInstrument, orbit_track: Geocentric, cross_track_index: int, along_track_index: int, elevation: float = 0):
    cone, clock = self.get_pixel_cone_and_clock_angle(cross_track_index, along_track_index)
    return compute_projected_ray_position(
        orbit_track, 2 * cone, 2 * cone, self.roll_angle, self.pitch_angle, False, clock, elevation)


@spec("C20 C24", "tatc.schemas.instrument.PointedInstrument.compute_footprint_pixel_array")
def pixel_array(self: PointedInstrument, orbit_track: Geocentric, elevation: float = 0):
    positions = [
        self.compute_projected_pixel_position(orbit_track, i, j, elevation)
        for i in range(self.cross_track_pixels) for j in range(self.along_track_pixels)
    ]
    if np.size(orbit_track.t) > 1:
        return [
            MultiPoint([
                Point(p.longitude.degrees[k], p.latitude.degrees[k], p.elevation.m[k])
                for p in positions
            ])
            for k in range(np.size(orbit_track.t))
        ]
    return MultiPoint([
        Point(p.longitude.degrees, p.latitude.degrees, p.elevation.m) for p in positions
    ])
