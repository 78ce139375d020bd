"""Writing ATS files, from the description of the format (little endian, 1024 bytes)."""
import os
import struct

import numpy as np

LAYOUT = [  # name, type, offset
    ('header_length', 'h', 0), ('header_version', 'h', 2), ('sample_length', 'i', 4), ('sampling_rate', 'f', 8), ('start', 'i', 12),
    ('lsbval', 'd', 16), ('GMToffset', 'i', 24), ('Res1', 'i', 28), ('serial_number_ADU06', 'H', 32), ('serial_number_ADC_board', 'h', 34),
    ('channel_number', 'b', 36), ('Res2', 'b', 37), ('channel_type', '2s', 38), ('sensor_type', '6s', 40), ('sensor_serial_number', 'h', 46),
    ('x1', 'f', 48), ('y1', 'f', 52), ('z1', 'f', 56), ('x2', 'f', 60), ('y2', 'f', 64), ('z2', 'f', 68), ('E_field_dipole_length', 'f', 72),
    ('angle', 'f', 76), ('rho_probe', 'f', 80), ('DC_offset_voltage', 'f', 84), ('internal_gain_ampli', 'f', 88), ('Res3', 'i', 92),
    ('ADU_Lat', 'i', 96), ('ADU_Long', 'i', 100), ('ADU_Elev', 'i', 104), ('Lat_Long_TYPE', '1s', 108), ('add_coordinates', '1s', 109),
    ('ref_meridian', 'h', 110), ('xcoor', 'd', 112), ('ycoor', 'd', 120), ('gps_clock_status', '1s', 128), ('accuracy_GPS', 'b', 129),
    ('offset_UTC', 'h', 130), ('Res4a', 'i', 132), ('Res4b', 'i', 136), ('Res4c', 'i', 140), ('survey_header_filename', '12s', 144),
    ('type_of_meas', '4s', 156), ('logfile', '12s', 160), ('result_selftest', '2s', 172), ('Res5', 'h', 174), ('number_of_calib_freq', 'h', 176),
    ('length_of_freq_entry', 'h', 178), ('version_calib', 'h', 180), ('start_addres', 'h', 182), ('Res6', 'q', 184), ('cal_filename_ADU06', '12s', 192),
    ('datetime_calib', 'i', 204), ('cal_sensor_filename', '12s', 208), ('datetime_calib_sens', 'i', 220), ('powerline1', 'f', 224),
    ('powerline2', 'f', 228), ('Res7', 'q', 232), ('CSAMT_Tx_freq', 'f', 240), ('CSAMT_TS_blocks', 'h', 244), ('CSAMT_stacks', 'h', 246),
    ('CSAMT_blk_length', 'i', 248), ('Res8', 'i', 252), ('Client', '16s', 256), ('Contractor', '16s', 272), ('Area', '16s', 288),
    ('SurveyID', '16s', 304), ('Operator', '16s', 320), ('Res9', '112s', 336), ('Weather', '64s', 448), ('Comments', '512s', 512)]
UNITS = {'ADU_Lat': 1e-3 / 3600, 'ADU_Long': 1e-3 / 3600, 'ADU_Elev': 1e-2}


def header(fields, filler, length=1024):
    "filler: RandomState for the other fields"
    buf = bytearray(filler.bytes(max(length, 1024)))
    fields = dict(fields, header_length=length)
    for name, fmt, off in LAYOUT:
        if name in fields:
            struct.pack_into('<' + fmt, buf, off, fields[name])
    return bytes(buf)


def parse(buf):
    return {name: struct.unpack_from('<' + fmt, buf, off)[0] * UNITS.get(name, 1) if name in UNITS
            else struct.unpack_from('<' + fmt, buf, off)[0] for name, fmt, off in LAYOUT}


def same_value(a, b):
    if isinstance(b, float):
        return isinstance(a, float) and (a == b or (a != a and b != b) or abs(a - b) <= 1e-12 * abs(b))
    return type(a) is type(b) and a == b


def samples(r, n, kind):
    info = np.iinfo(np.int32)
    if kind == "small":
        return r.randint(-1000, 1000, n).astype('<i4')
    if kind == "extreme":
        return r.choice([info.min, info.max, 0, 1, -1], n).astype('<i4')
    return r.randint(info.min, info.max, n, dtype=np.int64).astype('<i4')


def write(path, head, values, tail=b""):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(head)
        f.write(values.astype('<i4').tobytes())
        f.write(tail)
