"""Reference definitions: TLE validation and text helpers."""
import re
from typing import List
import numpy as np
from sgp4.api import Satrec
from sgp4.conveniences import sat_epoch_datetime


@spec("C08 C09 C10", "tatc.utils.zero_pad")
def zero_pad(object_name: str, max_number: int, current_number: int):
    return object_name + " " + str(current_number).zfill(len(str(max_number)))


@spec("C02", "tatc.utils.is_even_length_list")
def even(v: list):
    if len(v) % 2 != 0:
        raise ValueError
    return v


LINE_1 = (
    r"1 [ 0-9A-HJ-NP-Z][ 0-9]{4}[A-Z] [ 0-9]{5}[ A-Z]{3} "
    r"[ 0-9]{5}[.][ 0-9]{8} (?:(?:[ 0+-][.][ 0-9]{8})|(?: "
    r"[ +-][.][ 0-9]{7})) [ +-][ 0-9]{5}[+-][ 0-9] "
    r"[ +-][ 0-9]{5}[+-][ 0-9] [ 0-9] [ 0-9]{4}[ 0-9]"
)
LINE_2 = (
    r"2 [ 0-9A-HJ-NP-Z][ 0-9]{4} [ 0-9]{3}[.][ 0-9]{4} "
    r"[ 0-9]{3}[.][ 0-9]{4} [ 0-9]{7} [ 0-9]{3}[.][ 0-9]{4} "
    r"[ 0-9]{3}[.][ 0-9]{4} [ 0-9]{2}[.][ 0-9]{13}[ 0-9]"
)


def checksum(line):
    """Sum of the digits, a minus sign counting one, modulo ten."""
    total = 0
    for j in range(68):
        if line[j].isdigit():
            total += int(line[j])
        elif line[j] == "-":
            total += 1
    return total % 10


@spec("C02", "tatc.utils.is_valid_tle")
def valid_tle(v: List[str]):
    for i in range(0, len(v), 2):
        if len(v[i]) != 69 or len(v[i + 1]) != 69:
            raise ValueError
        if re.match(LINE_1, v[i]) is None or re.match(LINE_2, v[i + 1]) is None:
            raise ValueError
        if int(v[i][68]) != checksum(v[i]) or int(v[i + 1][68]) != checksum(v[i + 1]):
            raise ValueError
    return v


@spec("C02", "tatc.utils.is_chronological_tle")
def chronological(v: List[str]):
    epochs = np.array([
        sat_epoch_datetime(Satrec.twoline2rv(v[i], v[i + 1])) for i in range(0, len(v), 2)
    ])
    if not all(epochs[:-1] <= epochs[1:]):
        raise ValueError
    return v
