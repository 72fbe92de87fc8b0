"""Write shot gathers (SU, SEGY, SEG2) independently of the code under test.

A gather is a dict: dt [s], n, delay [s, <= 0], stacks (per trace), xs, ys
(header integers for SU/SEGY, floats for SEG2), src (x, y), amps, and for
SU/SEGY scal (coordinate scalar) and units.  srcs: sources of single traces
which differ from src.
"""

import struct

import numpy as np

# Byte offsets of the SEG-Y trace header fields used (0-based), all big endian
# for SEGY; SU is written little endian here.
FIELDS = {"tracl": (0, "i"), "nhs": (32, "h"), "scalco": (70, "h"), "sx": (72, "i"), "sy": (76, "i"),
          "gx": (80, "i"), "gy": (84, "i"), "counit": (88, "h"), "delrt": (108, "h"),
          "ns": (114, "H"), "dt": (116, "H"), "trid": (28, "h"),
          "year": (156, "h"), "day": (158, "h"), "hour": (160, "h"), "minute": (162, "h"), "sec": (164, "h")}


def _trace_header(end, g, i):
    h = bytearray(240)

    def put(name, value):
        off, code = FIELDS[name]
        struct.pack_into(end + code, h, off, value)
    put("tracl", i + 1)
    put("trid", 1)
    put("nhs", g["stacks"][i])
    put("scalco", g["scal"])
    src = g.get("srcs", {}).get(i, g["src"])
    put("sx", src[0])
    put("sy", src[1])
    put("gx", g["xs"][i])
    put("gy", g["ys"][i])
    put("counit", g.get("units", 1))
    put("delrt", int(round(g["delay"] * 1000)))
    put("ns", g["n"])
    put("dt", int(round(g["dt"] * 1e6)))
    put("year", 2020)
    put("day", 100)
    return bytes(h)


def su_bytes(g, end="<"):
    out = b""
    for i, amp in enumerate(g["amps"]):
        out += _trace_header(end, g, i) + np.asarray(amp, dtype=end + "f4").tobytes()
    return out


def segy_bytes(g):
    text = ("C 1 SIMULATED".ljust(80) + "".join(f"C{k:2d}".ljust(80) for k in range(2, 41)))
    out = text.encode("cp037")
    b = bytearray(400)
    struct.pack_into(">h", b, 12, len(g["amps"]))
    struct.pack_into(">H", b, 16, int(round(g["dt"] * 1e6)))
    struct.pack_into(">H", b, 20, g["n"])
    struct.pack_into(">h", b, 24, 5)            # IEEE float
    struct.pack_into(">h", b, 300, 0x0100)
    struct.pack_into(">h", b, 302, 1)
    out += bytes(b)
    for i, amp in enumerate(g["amps"]):
        out += _trace_header(">", g, i) + np.asarray(amp, dtype=">f4").tobytes()
    return out


def _seg2_strings(pairs):
    out = b""
    for k, v in pairs:
        s = f"{k} {v}".encode() + b"\x00"
        out += struct.pack("<H", len(s) + 2) + s
    return out + struct.pack("<H", 0)


def seg2_bytes(g):
    n = len(g["amps"])
    fstr = _seg2_strings([("ACQUISITION_DATE", "01/Jan/2020"), ("ACQUISITION_TIME", "10:00:00"),
                          ("INSTRUMENT", "SIM 1"), ("UNITS", "METERS")])
    m = 4 * n
    head = struct.pack("<HHHH", 0x3A55, 1, m, n) + bytes([1, 0, 0, 1, 10, 0]) + bytes(18)
    traces = []
    for i, amp in enumerate(g["amps"]):
        s = _seg2_strings([("CHANNEL_NUMBER", i + 1), ("DELAY", f"{g['delay']:.6f}"),
                           ("RECEIVER_LOCATION", f"{g['xs'][i]:.3f}"), ("SAMPLE_INTERVAL", f"{g['dt']:.6f}"),
                           ("SOURCE_LOCATION", f"{g.get('srcs', {}).get(i, g['src'])[0]:.3f}"), ("STACK", g["stacks"][i])])
        size = 32 + len(s)
        pad = -size % 4
        data = np.asarray(amp, dtype="<f4").tobytes()
        t = struct.pack("<HHIIB", 0x4422, size + pad, len(data), g["n"], 4) + bytes(19) + s + bytes(pad) + data
        traces.append(t)
    pos = len(head) + m + len(fstr)
    pad = -pos % 4
    pos += pad
    ptrs = b""
    for t in traces:
        ptrs += struct.pack("<I", pos)
        pos += len(t)
    return head + ptrs + fstr + bytes(pad) + b"".join(traces)


def gather_bytes(fmt, g):
    return {"SU": su_bytes, "SEGY": segy_bytes, "SEG2": seg2_bytes}[fmt](g)


def write_gather(path, fmt, g):
    with open(path, "wb") as f:
        f.write(gather_bytes(fmt, g))


def scaled(value, scal):
    """Coordinate as the standard defines it: x scal, or / -scal if negative."""
    scal = scal or 1
    return value * scal if scal > 0 else value / -scal
