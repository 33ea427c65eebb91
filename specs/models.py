"""Reference definitions: fields of the public models, with types, defaults and limits."""
from datetime import datetime, time, timedelta, timezone
from enum import Enum
from typing import Annotated, List, Literal, Optional, Union
from pydantic import AfterValidator, BaseModel, Field, NonNegativeInt
from tatc import utils
from tatc.constants import EARTH_MEAN_RADIUS
from tatc.schemas.instrument import Instrument, PointedInstrument
from tatc.schemas.orbit import (
    TwoLineElements, CircularOrbit, SunSynchronousOrbit, KeplerianOrbit,
)
from tatc.schemas.point import GroundStation
from tatc.schemas.satellite import (
    Satellite, TrainConstellation, WalkerConfiguration, WalkerConstellation,
    MOGConstellation, SOCConstellation,
)


# ---------------------------------------------------------------- points

@model("C31", "tatc.schemas.point.Point")
class Point_(BaseModel):
    id: int = Field(..., ge=0)
    latitude: float = Field(..., ge=-90, le=90)
    longitude: float = Field(..., ge=-180, le=180)
    elevation: float = 0


@model("C31", "tatc.schemas.point.GroundStation")
class GroundStation_(BaseModel):
    name: str
    latitude: float = Field(..., ge=-90, le=90)
    longitude: float = Field(..., ge=-180, le=180)
    elevation: float = 0
    min_elevation_angle: float = Field(0, ge=0, le=90)
    min_access_time: timedelta = timedelta(0)


# ---------------------------------------------------------------- instruments

@model("C31", "tatc.schemas.instrument.Instrument")
class Instrument_(BaseModel):
    name: str = "Default"
    field_of_regard: float = Field(180, gt=0, le=360)
    min_access_time: timedelta = timedelta(0)
    req_self_sunlit: Optional[bool] = None
    req_target_sunlit: Optional[bool] = None
    access_time_fixed: bool = False


@model("C31", "tatc.schemas.instrument.PointedInstrument")
class PointedInstrument_(Instrument_):
    cross_track_field_of_view: float = Field(..., gt=0, le=180)
    along_track_field_of_view: float = Field(..., gt=0, le=180)
    roll_angle: float = Field(0, ge=-180, le=180)
    pitch_angle: float = Field(0, ge=-180, le=180)
    is_rectangular: bool = False
    cross_track_pixels: int = Field(1, ge=1)
    along_track_pixels: int = Field(1, ge=1)
    cross_track_oversampling: float = Field(0, ge=0, lt=1)
    along_track_oversampling: float = Field(0, ge=0, lt=1)


# ---------------------------------------------------------------- orbits

def tle_lines(v: list):
    return utils.is_chronological_tle(utils.is_valid_tle(utils.is_even_length_list(v)))


@model("C31 C02", "tatc.schemas.orbit.TwoLineElements")
class TwoLineElements_(BaseModel):
    type: Literal["tle"] = "tle"
    tle: Annotated[List[str], AfterValidator(tle_lines)] = Field(..., min_length=2)


class Base_(BaseModel):
    altitude: float
    true_anomaly: float = Field(0, ge=0, lt=360)
    epoch: Optional[datetime] = datetime.now(tz=timezone.utc)


@model("C31", "tatc.schemas.orbit.CircularOrbit")
class CircularOrbit_(Base_):
    type: Literal["circular"] = "circular"
    inclination: float = Field(0, ge=0, lt=180)
    right_ascension_ascending_node: float = Field(0, ge=0, lt=360)


@model("C31", "tatc.schemas.orbit.SunSynchronousOrbit")
class SunSynchronousOrbit_(Base_):
    type: Literal["sso"] = "sso"
    altitude: float = Field(..., ge=0, lt=12352000 - EARTH_MEAN_RADIUS)
    equator_crossing_time: time
    equator_crossing_ascending: bool = True


@model("C31", "tatc.schemas.orbit.KeplerianOrbit")
class KeplerianOrbit_(CircularOrbit_):
    type: Literal["keplerian"] = "keplerian"
    eccentricity: float = Field(0, ge=0)
    perigee_argument: float = Field(0, ge=0, lt=360)


@model("C31", "tatc.schemas.orbit.MolniyaOrbit")
class MolniyaOrbit_(Base_):
    type: Literal["molniya"] = "molniya"
    inclination: float = Field(0, ge=0, lt=180)
    right_ascension_ascending_node: float = Field(0, ge=0, lt=360)
    orbital_period: float = Field(43080, gt=0)
    perigee_argument: float = Field(0, ge=0, lt=360)


@model("C31", "tatc.schemas.orbit.TundraOrbit")
class TundraOrbit_(MolniyaOrbit_):
    type: Literal["tundra"] = "tundra"
    inclination: float = Field(63.4, ge=0, lt=180)
    orbital_period: float = Field(86400, gt=0)
    perigee_argument: float = Field(270, ge=0, lt=360)
    eccentricity: float = Field(0.2, ge=0)


# ---------------------------------------------------------------- satellites

@model("C31", "tatc.schemas.satellite.Satellite")
class Satellite_(BaseModel):
    type: Literal["satellite"] = "satellite"
    name: str
    orbit: Union[TwoLineElements, CircularOrbit, SunSynchronousOrbit, KeplerianOrbit]
    instruments: List[Union[PointedInstrument, Instrument]] = Field([Instrument()], min_length=1)


class Led_(Satellite_):
    orbit: Union[TwoLineElements, SunSynchronousOrbit, CircularOrbit, KeplerianOrbit]
    number_satellites: int = Field(1, ge=1)


@model("C31 C09", "tatc.schemas.satellite.TrainConstellation")
class TrainConstellation_(Led_):
    type: Literal["train"] = "train"
    interval: timedelta
    repeat_ground_track: bool = True


@model("C31 C08", "tatc.schemas.satellite.WalkerConfiguration")
class WalkerConfiguration_(str, Enum):
    DELTA = "delta"
    STAR = "star"


@model("C31 C08", "tatc.schemas.satellite.WalkerConstellation")
class WalkerConstellation_(Led_):
    type: Literal["walker"] = "walker"
    configuration: WalkerConfiguration = WalkerConfiguration.DELTA
    number_planes: int = Field(1, ge=1)
    relative_spacing: int = Field(0, ge=0)


@validation("C31 C08", "tatc.schemas.satellite.WalkerConstellation")
def walker(self: WalkerConstellation):
    if self.number_planes > self.number_satellites or self.relative_spacing >= self.number_planes:
        raise ValueError
    return self


@model("C31 C10", "tatc.schemas.satellite.MOGConstellation")
class MOGConstellation_(Satellite_):
    type: Literal["mog"] = "mog"
    orbit: CircularOrbit
    parallel_axis: float = Field(..., gt=0)
    transverse_axis: float = Field(..., gt=0)
    clockwise: bool = True
    number_satellites: int = Field(2, gt=0)


@model("C31 C10", "tatc.schemas.satellite.SOCConstellation")
class SOCConstellation_(Satellite_):
    type: Literal["soc"] = "soc"
    orbit: CircularOrbit
    swath_width: float = Field(..., gt=0)
    packing_distance: float = Field(..., gt=0, le=1)


@model("C31", "tatc.schemas.architecture.Architecture")
class Architecture_(BaseModel):
    name: str
    satellites: List[Union[
        Satellite, TrainConstellation, WalkerConstellation, MOGConstellation, SOCConstellation,
    ]] = []
    stations: List[GroundStation] = []


# ---------------------------------------------------------------- configuration and options

@model("C30", "tatc.config.RuntimeConfiguration")
class RuntimeConfiguration_(BaseModel):
    footprint_points_elliptical: int = Field(32, ge=4)
    footprint_points_rectangular_side: int = Field(8, ge=1)
    repeat_cycle_delta_position_m: float = Field(10000, gt=0)
    repeat_cycle_delta_velocity_m_per_s: float = Field(10, gt=0)
    repeat_cycle_search_elevation_deg: float = Field(88, gt=0)
    repeat_cycle_search_duration_days: float = 30
    repeat_cycle_lazy_load: bool = True
    repeat_cycle_for_orbit_track: bool = True
    repeat_cycle_for_observation_events: bool = True
    orbit_tle_lazy_load: bool = True


@model("C27", "tatc.analysis.dop.DopMethod")
class DopMethod_(str, Enum):
    GDOP = "gdop"
    PDOP = "pdop"
    HDOP = "hdop"
    VDOP = "vdop"
    TDOP = "tdop"


@model("C23", "tatc.analysis.track.OrbitCoordinate")
class OrbitCoordinate_(str, Enum):
    WGS84 = "wgs84"
    ECEF = "ecef"
    ECI = "eci"


@model("C23", "tatc.analysis.track.OrbitOutput")
class OrbitOutput_(str, Enum):
    POSITION = "position"
    POSITION_VELOCITY = "velocity"
