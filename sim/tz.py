"""The simulated host's time zone.

Zones are POSIX rules, handed to the C library through ``TZ`` and, independently, to
``zoneinfo`` as an in-memory TZif file; the latter is the oracle.
"""

from __future__ import annotations

import io
import os
import struct
import time
import zoneinfo

RULES = {
    "UTC": "UTC0",
    "+14": "<+14>-14",
    "-11:30": "<-1130>11:30",
    "+05:45": "<+0545>-5:45",
    "New York": "EST5EDT,M3.2.0,M11.1.0",
    "Sydney": "AEST-10AEDT,M10.1.0,M4.1.0/3",
    "Dublin": "IST-1GMT0,M10.5.0,M3.5.0/1",  # negative DST
    "Lord Howe": "<+1030>-10:30<+11>-11,M10.1.0,M4.1.0",  # half an hour of DST
}
DST = ("New York", "Sydney", "Dublin", "Lord Howe")


def _tzif(rule):
    block = (
        b"TZif2" + bytes(15) + struct.pack(">6l", 0, 0, 0, 0, 1, 4)
        + struct.pack(">lbB", 0, 0, 0) + b"XXX\0"
    )
    return block + block + b"\n" + rule.encode() + b"\n"


ZONES = {
    name: zoneinfo.ZoneInfo.from_file(io.BytesIO(_tzif(rule)), key=name)
    for name, rule in RULES.items()
}


def move_host(sim, name):
    """The host's time zone becomes ``name``.  Returns the oracle's tzinfo."""
    os.environ["TZ"] = RULES[name]
    time.tzset()
    sim.log("timezone", name)
    return ZONES[name]


def reset():
    if os.environ.get("TZ") != "UTC":
        os.environ["TZ"] = "UTC"
        time.tzset()
