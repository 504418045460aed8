"""Maps between integer/rational ticks and domain labels."""
import datetime as dt
from fractions import Fraction as F

import numpy as np
import pandas as pd

NS = {"2ns": 2, "us": 1000, "s": 10**9, "min": 60 * 10**9, "90min": 5400 * 10**9,
      "h": 3600 * 10**9, "D": 86400 * 10**9, "7D": 7 * 86400 * 10**9}

# name -> spec.  kind: int/float/ts/td
DOMAINS = {
    "int": dict(kind="int"),
    "intbig": dict(kind="int", off=2**40 + 3),  # beyond 32 bits
    "float": dict(kind="float", scale=F(1, 2), off=F(-5, 4)),
    "float1": dict(kind="float", scale=F(1), off=F(0)),
    "floattiny": dict(kind="float", scale=F(1, 2**30), off=F(1)),  # steps which are very close to each other
    "floatneg": dict(kind="float", scale=F(3, 8), off=F(-1000)),
    "fdec": dict(kind="fdec"),  # 0.1 multiples: labels are rounded, lengths inexact
    "ts": dict(kind="ts", origin="2020-01-01", unit="h"),
    "ts_D": dict(kind="ts", origin="1999-12-28 13:00", unit="D"),
    "ts_ns": dict(kind="ts", origin="2020-02-29 23:59:59.999999990", unit="2ns"),
    "ts_old": dict(kind="ts", origin="1969-12-31 22:30", unit="90min"),
    "ts_fut": dict(kind="ts", origin="2255-01-01", unit="min"),
    "ts_past": dict(kind="ts", origin="1690-03-01 12:00", unit="h"),
    "tz_syd": dict(kind="ts", origin="2021-04-03 22:00", unit="h", tz="Australia/Sydney"),
    "tz_syd2": dict(kind="ts", origin="2021-10-02 22:00", unit="h", tz="Australia/Sydney"),
    "tz_ny": dict(kind="ts", origin="2021-03-12 12:00", unit="D", tz="America/New_York"),
    "tz_utc": dict(kind="ts", origin="2021-06-01", unit="min", tz="UTC"),
    "tz_fix": dict(kind="ts", origin="2021-06-01", unit="90min", tz="+05:30"),
    "td": dict(kind="td", unit="h", off=0),
    "td_neg": dict(kind="td", unit="s", off=-6),
    "td_big": dict(kind="td", unit="D", off=20000),
}


def narrow(v, flavour):
    """the narrowest numpy scalar equal to v (unsigned if possible for flavour uns)"""
    if isinstance(v, int):
        types = ["uint8", "uint16", "uint32"] if flavour == "uns" and v >= 0 else []
        for t in types + ["int8", "int16", "int32"]:
            if np.iinfo(t).min <= v <= np.iinfo(t).max:
                return np.dtype(t).type(v)
        return np.int64(v)
    return np.float32(v) if float(np.float32(v)) == v else np.float64(v)


class Domain:
    def __init__(self, name):
        self.name = name
        s = DOMAINS[name]
        self.kind = s["kind"]
        self.tz = None
        self.datelike = self.kind in ("ts", "td")
        self.exact = self.kind != "fdec"
        if self.kind == "ts":
            self.unit = NS[s["unit"]]
            tz = s.get("tz")
            if tz == "+05:30":
                tz = dt.timezone(dt.timedelta(hours=5, minutes=30))
            self.tz = tz
            origin = pd.Timestamp(s["origin"])
            if tz is not None:
                origin = origin.tz_localize(tz)
            self.origin_ns = origin.value
            self.zone = str(origin.tz)
        elif self.kind == "td":
            self.unit = NS[s["unit"]]
            self.off = s["off"]
        elif self.kind == "int":
            self.off = s.get("off", 0)
        elif self.kind == "float":
            self.scale, self.off = s["scale"], s["off"]
        elif self.kind == "fdec":
            self._cache = {}
        # python datetime flavour needs whole microseconds
        self.py_ok = not self.datelike or self.unit % 2000 == 0

    # ---- points
    def lab(self, t, flavour="pd"):
        t = F(t)
        k = self.kind
        if k == "int":
            t += self.off
            if t.denominator == 1:
                v = int(t)
                if flavour in ("pds", "nps", "uns"):
                    return narrow(v, flavour)
                return np.int64(v) if flavour == "np" else float(v) if flavour == "alt" else v
            if flavour in ("pds", "nps", "uns"):
                return narrow(float(t), flavour)
            return np.float64(float(t)) if flavour == "np" else float(t)
        if k == "float":
            v = float(t * self.scale + self.off)
            if flavour in ("pds", "nps", "uns"):
                return narrow(int(v) if flavour != "nps" and v.is_integer() else v, flavour)
            if flavour == "np":
                return np.float64(v)
            if flavour == "alt" and v.is_integer():
                return int(v)
            return v
        if k == "fdec":
            v = float(int(t * 2)) * 0.05 if t.denominator == 1 else (float(int(t * 2)) * 0.05)
            self._cache[v] = t
            return np.float64(v) if flavour == "np" else v
        ns = t * self.unit
        assert ns.denominator == 1, (t, self.name)
        ns = int(ns)
        if k == "ts":
            ns += self.origin_ns
            if self.tz is None:
                ts = pd.Timestamp(ns)
                if flavour == "np":
                    return ts.to_datetime64()
                if flavour == "nps":
                    return ts.to_datetime64().astype("datetime64[s]")
            else:
                ts = pd.Timestamp(ns, tz="UTC").tz_convert(self.tz)
            if flavour == "py":
                assert self.py_ok
                return ts.to_pydatetime()
            if flavour == "str":
                return str(ts)
            if flavour == "pds":
                return ts.as_unit("s")
            return ts
        td = pd.Timedelta(ns + self.off * self.unit, unit="ns")
        if flavour == "pds":
            return td.as_unit("s")
        if flavour == "nps":
            return td.to_timedelta64().astype("timedelta64[s]")
        if flavour == "np":
            return td.to_timedelta64()
        if flavour == "py":
            return td.to_pytimedelta()
        return td

    def flavours(self):
        if self.kind in ("int", "float"):
            return ["pd", "np", "alt"]
        if self.kind == "fdec":
            return ["pd", "np"]
        if self.kind == "ts" and self.tz is not None:
            return ["pd"] + (["py"] if self.py_ok else [])
        return ["pd", "np"] + (["py"] if self.py_ok else [])

    def all_flavours(self):
        """also labels of second resolution, and narrow numpy numbers"""
        fl = self.flavours()
        if self.kind in ("int", "float"):
            fl = fl + ["pds", "nps"]
        if self.datelike and self.unit % (2 * 10**9) == 0:
            fl = fl + ["pds"] + (["nps"] if self.tz is None else [])
        return fl

    def bound_flavour(self, flavour):
        """for single labels, which may also be unsigned"""
        if flavour == "pds" and self.kind in ("int", "float"):
            return "uns"
        return flavour if flavour in self.all_flavours() else "pd"

    def inv(self, label):
        """label -> tick (Fraction). Raises ValueError for a label outside the domain."""
        k = self.kind
        if k in ("int", "float", "fdec"):
            if isinstance(label, (pd.Timestamp, pd.Timedelta)) or not isinstance(
                label, (int, float, np.integer, np.floating)
            ):
                raise ValueError("label %r of type %s in a numeric domain" % (label, type(label)))
            if k == "int":
                return (F(int(label)) if float(label).is_integer() else F(float(label))) - self.off
            if k == "float":
                return (F(float(label)) - self.off) / self.scale
            v = float(label)
            if v not in self._cache:
                t = F(round(v / 0.05), 2)
                if float(int(t * 2)) * 0.05 != v:
                    raise ValueError("unknown label %r" % v)
                self._cache[v] = t
            return self._cache[v]
        if k == "ts":
            if isinstance(label, np.datetime64):
                label = pd.Timestamp(label)
                if self.tz is not None:
                    label = label.tz_localize("UTC")
            if not isinstance(label, pd.Timestamp) and isinstance(label, dt.datetime):
                label = pd.Timestamp(label)
            if not isinstance(label, pd.Timestamp) or pd.isna(label):
                raise ValueError("label %r of type %s in a Timestamp domain" % (label, type(label)))
            if (label.tz is None) != (self.tz is None):
                raise ValueError("timezone awareness changed: %r" % (label,))
            return F(label.as_unit("ns").value - self.origin_ns, self.unit)
        if isinstance(label, (np.timedelta64, dt.timedelta)) and not isinstance(label, pd.Timedelta):
            label = pd.Timedelta(label)
        if not isinstance(label, pd.Timedelta) or pd.isna(label):
            raise ValueError("label %r of type %s in a Timedelta domain" % (label, type(label)))
        return F(label.as_unit("ns").value, self.unit) - self.off

    # ---- lengths
    def length(self, t, flavour="pd"):
        t = F(t)
        k = self.kind
        if k == "int":
            v = int(t) if t.denominator == 1 else float(t)
            if flavour in ("pds", "nps"):
                return narrow(v, "uns" if flavour == "pds" else "")
            return (np.int64(v) if t.denominator == 1 else np.float64(v)) if flavour == "np" else v
        if k == "float":
            v = float(t * self.scale)
            if flavour in ("pds", "nps"):
                return narrow(int(v) if v.is_integer() else v, "uns" if flavour == "pds" else "")
            return np.float64(v) if flavour == "np" else v
        if k == "fdec":
            return float(t) * 0.1
        ns = t * self.unit
        assert ns.denominator == 1
        td = pd.Timedelta(int(ns), unit="ns")
        if flavour == "pds":
            return td.as_unit("s")
        if flavour == "nps":
            return td.to_timedelta64().astype("timedelta64[s]")
        if flavour == "np":
            return td.to_timedelta64()
        if flavour == "py":
            return td.to_pytimedelta()
        return td

    def inv_length(self, x):
        """length (or integral) -> ticks as Fraction (exact w.r.t. what the library returned)"""
        k = self.kind
        if k in ("int", "float", "fdec"):
            if isinstance(x, (pd.Timedelta, np.timedelta64, dt.timedelta)):
                raise ValueError("Timedelta in a numeric domain")
            x = float(x)
            if x != x:
                return None
            if k == "int":
                return F(x)
            if k == "float":
                return F(x) / self.scale
            return F(x) * 10
        if isinstance(x, (np.timedelta64, dt.timedelta)) and not isinstance(x, pd.Timedelta):
            x = pd.Timedelta(x)
        if x is pd.NaT or x is None or (isinstance(x, float) and x != x):
            return None
        if not isinstance(x, pd.Timedelta):
            raise ValueError("expected a Timedelta, got %r (%s)" % (x, type(x)))
        return F(x.as_unit("ns").value, self.unit)

    @property
    def tick_eps(self):
        """rounding slack (in ticks) of one length computation"""
        if self.datelike:
            return F(2, self.unit)
        return F(0)

    def index(self, ts):
        """pandas Index of labels"""
        return pd.Index([self.lab(t) for t in ts])


_cache = {}


def get(name):
    if name not in _cache:
        _cache[name] = Domain(name)
    return _cache[name]
