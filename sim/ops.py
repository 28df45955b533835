"""Catalogue of pysolar's public calculation functions, with argument generators that stay inside one run's small
pools (so that calls collide on equal and nearly equal arguments), and the executor for planned calls."""
import math, random
from . import values as V

# parameter kinds -------------------------------------------------------------------------------------------------
SCALAR = {
    "lat": lambda r: round(r.uniform(-66, 66), r.choice((0, 2, 6))),
    "lon": lambda r: round(r.uniform(-180, 180), r.choice((0, 2, 6))),
    "elev": lambda r: r.choice((0, 0.0, 120, 1830.14, 2500, 10999.0, 12000)),
    "temp": lambda r: round(r.uniform(245, 315), 2),
    "pres": lambda r: round(r.uniform(60000, 104000), 1),
    "day": lambda r: r.randint(1, 366),
    "jd": lambda r: 2441317.5 + round(r.uniform(0, 20000), 5),
    "jce": lambda r: round(r.uniform(-0.3, 0.3), 9),
    "jme": lambda r: round(r.uniform(-0.03, 0.03), 10),
    "deg": lambda r: round(r.uniform(0, 360), 5),
    "sdeg": lambda r: round(r.uniform(-23, 23), 5),
    "alt": lambda r: round(r.choice((r.uniform(3, 88), r.uniform(-80, -2))), 4),
    "dalt": lambda r: round(r.uniform(3, 88), 4),
    "dist": lambda r: round(r.uniform(0.98, 1.02), 7),
    "obl": lambda r: round(r.uniform(23.4, 23.5), 6),
    "small": lambda r: round(r.uniform(-0.01, 0.01), 8),
    "par": lambda r: round(r.uniform(0.0023, 0.0026), 8),
    "prd": lambda r: round(r.uniform(0.1, 1), 6),
    "slope": lambda r: round(r.uniform(0, 90), 2),
    "gst": lambda r: round(r.uniform(0, 360), 6),
    "air": lambda r: round(r.uniform(1, 10), 3),
    "unit": lambda r: round(r.uniform(0.05, 0.9), 4),
    "alpha": lambda r: round(r.uniform(0.5, 2.4), 3),
    "beta": lambda r: round(r.uniform(0.01, 0.6), 3),
    "mbar": lambda r: round(r.uniform(600, 1040), 1),
    "ghi": lambda r: round(r.uniform(10, 900), 1),
    "tl": lambda r: round(r.uniform(1, 6), 2),
    "ty": lambda r: r.choice((365, 366, 365.25)),
    "step": lambda r: r.choice((30, 30, 1, 10, 60, 7, 1440, 10.5, 0.5, 0.25, 59.75)),
    "lapse": lambda r: r.choice((-0.0065, -0.005, -0.0098)),
    "base": lambda r: r.choice((0, 0.0, 100.5, 1000.0, 5000)),
    "elevation": lambda r: r.choice((0, 100.5, 8848.0, 10999.9, 11000.0, 11000.5, 12000)),
}
BANDS = ("high-frequency", "low-frequency")

# name, positional parameters, optional keyword parameters, vectorises (v: yes)
CAT = [
    ("solar.get_position", "lat lon when", "elevation:elev temperature:temp pressure:pres", "p"),
    ("solar.get_topocentric_position", "lat lon when", "elevation:elev", "p"),
    ("solar.get_altitude", "lat lon when", "elevation:elev temperature:temp pressure:pres", "p"),
    ("solar.get_azimuth", "lat lon when", "elevation:elev", "p"),
    ("solar.get_altitude_fast", "lat lon when", "", "pw"),
    ("solar.get_azimuth_fast", "lat lon when", "", "pw"),
    ("solar.get_hour_angle", "when lon", "", "pw"),
    ("solar.get_solar_time", "lon when", "", "pw"),
    ("solar.equation_of_time", "day", "", "p"),
    ("solar.get_aberration_correction", "dist", "", "p"),
    ("solar.get_apparent_sidereal_time", "jd jme nut", "", ""),
    ("solar.get_apparent_sun_longitude", "deg nut small", "", "p"),
    ("solar.get_declination", "day", "", "p"),
    ("solar.get_coeff", "jme coeffs", "", "p"),
    ("solar.get_equatorial_horizontal_parallax", "dist", "", "p"),
    ("solar.get_flattened_latitude", "lat", "", "p"),
    ("solar.get_geocentric_latitude", "jme", "", "p"),
    ("solar.get_geocentric_longitude", "jme", "", "p"),
    ("solar.get_geocentric_sun_declination", "deg obl small", "", "p"),
    ("solar.get_geocentric_sun_right_ascension", "deg obl small", "", "p"),
    ("solar.get_heliocentric_latitude", "jme", "", "p"),
    ("solar.get_heliocentric_longitude", "jme", "", "p"),
    ("solar.get_incidence_angle", "slope slope deg deg", "", "p"),
    ("solar.get_local_hour_angle", "gst lon deg", "", "p"),
    ("solar.get_mean_sidereal_time", "jd", "", "p"),
    ("solar.get_nutation", "jce", "", "p"),
    ("solar.get_parallax_sun_right_ascension", "prd par deg sdeg", "", "p"),
    ("solar.get_projected_radial_distance", "elev lat", "", "p"),
    ("solar.get_projected_axial_distance", "elev lat", "", "p"),
    ("solar.get_sun_earth_distance", "jme", "", "p"),
    ("solar.get_refraction_correction", "pres temp alt", "", "p"),
    ("solar.get_topocentric_azimuth_angle", "deg lat sdeg", "", "p"),
    ("solar.get_topocentric_elevation_angle", "lat sdeg deg", "", "p"),
    ("solar.get_topocentric_local_hour_angle", "deg small", "", "p"),
    ("solar.get_topocentric_sun_declination", "sdeg prd par small deg", "", "p"),
    ("solar.get_topocentric_sun_right_ascension", "prd par deg deg obl small", "", "p"),
    ("solar.get_topocentric_zenith_angle", "lat sdeg deg pres temp", "", "p"),
    ("solar.get_true_ecliptic_obliquity", "jme nut", "", ""),
    ("stime.get_leap_seconds", "when", "", ""),
    ("stime.get_delta_t", "when", "", ""),
    ("stime.get_julian_solar_day", "when", "", ""),
    ("stime.get_julian_ephemeris_day", "when", "", ""),
    ("stime.get_julian_century", "jd", "", "p"),
    ("stime.get_julian_ephemeris_century", "jd", "", "p"),
    ("stime.get_julian_ephemeris_millennium", "jce", "", "p"),
    ("util.get_sunrise_sunset_transit", "lat lon when", "", ""),
    ("util.get_sunrise_sunset", "lat lon when", "", ""),
    ("util.get_sunrise_time", "lat lon when", "", ""),
    ("util.get_sunset_time", "lat lon when", "", ""),
    ("util.get_transit_time", "lat lon when", "", ""),
    ("util.mean_earth_sun_distance", "when", "", ""),
    ("util.extraterrestrial_irrad", "lat lon when", "SC:ghi", ""),
    ("util.declination_degree", "when", "TY:ty", ""),
    ("util.solarelevation_function_clear", "lat lon when", "temperature:temp pressure:pres elevation:elev", "p"),
    ("util.solarelevation_function_overcast", "lat lon when", "elevation:elev temperature:temp pressure:pres", "p"),
    ("util.diffuse_transmittance", "", "TL:tl", "p"),
    ("util.diffuse_underclear", "lat lon when", "elevation:elev temperature:temp pressure:pres TL:tl", "p"),
    ("util.diffuse_underovercast", "lat lon when", "elevation:elev temperature:temp pressure:pres TL:tl", "p"),
    ("util.direct_underclear", "lat lon when", "TY:ty AM:air TL:tl elevation:elev temperature:temp pressure:pres", "p"),
    ("util.global_irradiance_clear", "lat lon when", "TY:ty AM:air TL:tl elevation:elev temperature:temp pressure:pres", "p"),
    ("util.global_irradiance_overcast", "lat lon when", "elevation:elev temperature:temp pressure:pres", "p"),
    ("util.diffuse_ratio", "ghi ghi", "", "p"),
    ("util.clear_index", "ghi lat lon when", "", ""),
    ("radiation.get_air_mass_ratio", "alt", "", "p"),
    ("radiation.get_apparent_extraterrestrial_flux", "day", "", "p"),
    ("radiation.get_optical_depth", "day", "", "p"),
    ("radiation.get_radiation_direct", "when alt", "", "pw"),
    ("elevation.get_pressure_with_elevation", "elevation", "Ps:pres Ts:temp Tl:lapse Hb:base", ""),
    ("elevation.get_temperature_with_elevation", "elevation", "Ts:temp Tl:lapse", "p"),
    ("rest.get_aerosol_forward_scatterance_factor", "dalt", "", "p"),
    ("rest.get_aerosol_optical_depth", "beta air alpha", "", "p"),
    ("rest.get_aerosol_scattering_correction_factor", "band air unit", "", "p"),
    ("rest.get_aerosol_transmittance", "band air unit", "", "p"),
    ("rest.get_aerosol_scattering_transmittance", "band air unit", "", "p"),
    ("rest.get_effective_aerosol_wavelength", "band air alpha beta", "", "p"),
    ("rest.get_direct_normal_irradiance_by_band", "band dalt", "pressure_millibars:mbar ozone_atm_cm:unit precipitable_water_cm:tl turbidity_alpha:alpha turbidity_beta:beta", "p"),
    ("rest.get_broadband_direct_normal_irradiance", "dalt", "pressure_millibars:mbar", "p"),
    ("rest.get_gas_transmittance", "band air", "", "p"),
    ("rest.get_ground_albedo", "band", "", ""),
    ("rest.get_nitrogen_transmittance", "band air unit", "", ""),
    ("rest.get_optical_mass_rayleigh", "dalt mbar", "", "p"),
    ("rest.get_optical_mass_ozone", "dalt", "", "p"),
    ("rest.get_optical_mass_water", "dalt", "", "p"),
    ("rest.get_optical_mass_aerosol", "dalt", "", "p"),
    ("rest.get_ozone_transmittance", "band air unit", "", "p"),
    ("rest.get_rayleigh_extinction_forward_scattering_fraction", "band air", "", "p"),
    ("rest.get_rayleigh_transmittance", "band air", "", "p"),
    ("rest.get_sky_albedo", "band alpha beta", "", "p"),
    ("rest.get_water_vapor_transmittance", "band air tl", "", "p"),
    ("rest.get_water_vapor_transmittance_coefficients", "band tl", "", "p"),
    ("numeric.tm_yday", "when", "", "w"),
    ("numeric.tm_hour", "when", "", "w"),
    ("numeric.tm_min", "when", "", "w"),
    ("stream.span", "lat lon when", "", ""),
    ("stream.range", "when", "", ""),
    ("tables.aberration", "", "", ""),
]
BY = {c[0]: c for c in CAT}
PARAMS = {c[0]: c[1].split() for c in CAT}
WHEN_FNS = [c[0] for c in CAT if "when" in c[1].split()]
POSITION = ("solar.get_position", "solar.get_topocentric_position", "solar.get_altitude", "solar.get_azimuth")
SUNRISE = tuple(c[0] for c in CAT if c[0].startswith("util.get_sun") or c[0] == "util.get_transit_time")
COEFFS = ("heliocentric_longitude_coeffs", "heliocentric_latitude_coeffs", "sun_earth_distance_coeffs")
# how often a function is drawn
WEIGHT = {}
for c in CAT:
    n = c[0]
    w = 1.0
    if n in POSITION:
        w = 6.0
    elif "when" in c[1].split():
        w = 2.5
    elif n.startswith("rest."):
        w = 0.35
    elif n == "solar.get_nutation":
        w = 3.0
    WEIGHT[n] = w


LITERALS = {}


def dictionary(numbers):
    """numbers mentioned in the code under test: values near them are worth trying (inputs only, never a verdict)"""
    LITERALS.clear()
    every = set()
    for f, ns in numbers.items():
        ns = [x for x in ns if x not in (0, 1, -1)]
        if ns:
            LITERALS[f.replace("solartime.", "stime.")] = ns
            if len(ns) < 40:
                every.update(ns)
    LITERALS[""] = sorted(every) or [2]
    LITERALS["stream.span"] = LITERALS.get("simulate.simulate_span", [2])


class Pools:
    """The few values one run works with."""

    def __init__(self, rng, years=(1960, 2060), zones=True, naive=False, n_when=4, lat=None, arrays=False, subclasses=True, special=False):
        self.r, self.special, self.fn, self.uniform = rng, special, "", False
        self.p = {}
        self.years = years
        self.lat = lat
        r = rng
        zs = ["utc"] + (V.ZONE_NAMES if zones else [])
        self.zones = ["utc"] + r.sample(zs[1:], min(3, len(zs) - 1)) + [{"fixed": r.choice((-43200, -34200, -12345, 900, 20700, 45296, 50400, 0))}]
        self.whens = []
        base = self.instant()
        self.base = base
        while len(self.whens) < n_when:
            self.whens.append(self.related(r.choice(self.whens) if self.whens and r.random() < 0.75 else None))
        if naive:
            self.whens.append(V.naive(r.choice(self.whens)))
        if subclasses and r.random() < 0.3:
            self.whens.append(dict(r.choice(self.whens), cls=r.choice(("sub", "even"))))

    def instant(self):
        r = self.r
        y0, y1 = self.years
        lo, hi = (V._sec(y0, 1, 1)), V._sec(y1, 1, 1)
        k = r.random()
        if k < 0.45:
            s = r.randint(lo, hi - 1)
        elif k < 0.75:
            # near a month / year / midnight edge
            y, m = r.randint(y0, y1 - 1), r.choice((1, 1, 7, 7, 2, 3, r.randint(1, 12)))
            s = V._sec(y, m, 1) + r.choice((-1, 0, 1, -3600, 3600, r.randint(-90000, 90000)))
        else:
            # near a transition of one of the zones
            z = [z for z in self.zones if isinstance(z, str) and z != "utc"]
            t = V.zone(r.choice(z))._utc if z else []
            t = [x for x in t if lo <= x < hi]
            s = r.choice(t) + r.choice((-1, 0, 1, -1800, 1800, r.randint(-10000, 10000))) if t else r.randint(lo, hi - 1)
        us = r.choice((0, 0, 0, 1, 500000, 999999, r.randint(0, 999999)))
        return min(max(s, lo), hi - 1) * 1000000 + us

    def related(self, spec):
        r = self.r
        if spec is None:
            return V.at(self.instant() if r.random() < 0.5 else self.base, r.choice(self.zones))
        i = V.instant(spec)
        k = r.randrange(8)
        lo, hi = V._sec(self.years[0], 1, 1) * 1000000, V._sec(self.years[1], 1, 1) * 1000000

        def at(us, tz):
            return V.at(min(max(us, lo), hi - 1), tz)
        if k == 0:
            return at(i, r.choice(self.zones))                                   # same instant, other clock
        if k == 1:
            return dict(spec, tz=r.choice(self.zones))                           # same clock reading, other zone
        if k == 2:
            s = dict(spec)
            s["fold"] = 1 - s.get("fold", 0)                                     # the other fold: compares equal
            return s
        if k == 3:
            return at(i + r.choice((1, -1, 1000000, -1000000, 60000000)), spec["tz"])
        if k == 4:
            return at(i + r.choice((-1, 1)) * 86400000000 * r.choice((1, 7, 30)), spec["tz"])
        if k == 5:
            return at(i + r.choice((-1, 1)) * 86400000000 * r.choice((365, 366, 1461)), spec["tz"])
        if k == 6:
            return at(i + r.choice((-1, 1)) * 3600000000 * r.choice((1, 12, 24)), spec["tz"])
        return at(i - i % 86400000000, spec["tz"])                               # midnight UTC of that day

    def get(self, kind):
        r = self.r
        if kind == "when":
            return r.choice(self.whens)
        if kind == "band":
            return r.choice(BANDS)
        if kind == "coeffs":
            return {"table": r.choice(COEFFS)}
        if kind == "nut":
            return {"map": {"longitude": self.get("small"), "obliquity": self.get("small")}}
        p = self.p.setdefault(kind, [])
        if len(p) < 3 and (not p or r.random() < 0.6):
            v = self.lat(r) if kind == "lat" and self.lat else SCALAR[kind](r)
            if self.special and r.random() < 0.08 * self.special and not (kind == "lat" and self.lat):
                v = self.unusual(v, kind)
            if p and r.random() < 0.25:
                v = r.choice(p)
                v = r.choice((float(v), v + 1e-7 if kind != "day" else v, -v if kind in ("lat", "lon", "sdeg") and v else v))
            p.append(v)
        return r.choice(p)

    def unusual(self, v, kind):
        r = self.r
        if kind in ("step", "day"):
            return v
        if kind in ("alt", "dalt") and r.random() < 0.3:
            return round(r.uniform(-2, 3), 3)
        if r.random() < 0.5:
            return r.choice((0, 0.0, -0.0, 1, 1.0, -1, float(v), int(v), 90, -90.0, 180.0, 1e-300))
        x = r.choice(LITERALS.get(self.fn if r.random() < 0.6 else "") or LITERALS[""])
        return r.choice((x, x, x + 0.4, x - 0.4, -x, x * (1 + 1e-9), x * 1.01))

    def arr(self, kind, n):
        k = "%s[%d]" % (kind, n)
        p = self.p.setdefault(k, [])
        r = self.r
        if len(p) < 2 and (not p or r.random() < 0.6):
            if self.uniform:
                # the same site or moment many times over
                x = V.instant(r.choice([w for w in self.whens if w["tz"] is not None])) if kind == "when" else float(SCALAR[kind](r))
                p.append({"dt64": [(V.EPOCH + V.D.timedelta(microseconds=x)).isoformat(timespec="microseconds")] * n, "unit": r.choice(("s", "us", "ns", "D"))} if kind == "when" else {"arr": [x] * n})
            elif kind == "when":
                base = [V.instant(w) for w in self.whens if w["tz"] is not None]
                xs = [r.choice(base) + r.choice((0, 1, -1, 5000000000, 86400000000)) for _ in range(n)]
                p.append({"dt64": [(V.EPOCH + V.D.timedelta(microseconds=x)).isoformat(timespec="microseconds") for x in xs], "unit": r.choice(("s", "ms", "us", "m", "us", "ns", "h", "D"))})
            else:
                xs = [float(SCALAR[kind](r)) for _ in range(n)]
                k = r.random() if self.special else 1
                if k < 0.2:
                    xs = [math.copysign(x, xs[0]) for x in xs]            # all night, all day, one hemisphere
                elif k < 0.24:
                    xs = [xs[0]] * n
                elif k < 0.28:
                    xs = [r.choice((0.0, 0.0, 1.0))] * n
                elif k < 0.34:
                    xs.sort(reverse=r.random() < 0.5)
                p.append({"arr": xs})
        x = r.choice(p)
        return x if self.p.get("shape") is None else dict(x, shape=self.p["shape"])

    def vcall(self, fn=None, only=None):
        """a vectorised call"""
        r = self.r
        if fn is None:
            names = [c[0] for c in CAT if c[3] and (only is None or c[0] in only)] or [c[0] for c in CAT if c[3]]
            fn = r.choices(names, [WEIGHT[n] for n in names])[0]
        _, pos, kws, flag = BY[fn]
        self.fn = fn
        n = self.p.setdefault("size", r.choice((1, 2, 3, 7, 16)) if r.random() < 0.985 else r.choice((50, 70, 101, 130, 300, 700)))
        if "shape" not in self.p:
            # every array of a run has the same shape, so they broadcast
            self.p["shape"] = r.choice((None, [], [1, 1])) if n == 1 else r.choice((None, [2, n // 2], [n // 2, 1, 2])) if n == 16 else None
            if not self.special or r.random() < 0.5:
                self.p["shape"] = None
        neutral = self.special and r.random() < 0.12
        vw = "w" in flag and ("p" not in flag or r.random() < 0.6)
        vp = "p" in flag and (not vw or r.random() < 0.6)
        q = r.choice((0.5, 0.85, 0.85, 1))
        one = None
        if r.random() < 0.35:
            # exactly one array
            c = [j for j, k in enumerate(pos.split()) if k in SCALAR and vp or k == "when" and vw]
            one = r.choice(c) if c else None
        a = []
        for j, k in enumerate(pos.split()):
            if one is not None and j != one and not neutral:
                a.append(self.get(k))
            elif k == "when":
                a.append(self.arr(k, n) if vw else self.get(k))
            elif k in SCALAR and vp and (r.random() < q or j == one):
                a.append(self.arr(k, n))
            elif neutral and k in SCALAR:
                a.append(r.choice((0, 0.0, 1, 1.0)))
            else:
                a.append(self.get(k))
        if neutral:
            # one array, everything else a neutral element
            at = [j for j, x in enumerate(a) if isinstance(x, dict) and "arr" in x]
            for j in at:
                if len(at) > 1 and j != at[0] and r.random() < 0.7:
                    a[j] = r.choice((0, 0.0, 1, 1.0))
        d = {"fn": fn, "a": a}
        k = {}
        for kw in kws.split():
            if r.random() < 0.3:
                nm, kind = kw.split(":")
                k[nm] = self.arr(kind, n) if vp and one is None and r.random() < 0.5 else self.get(kind)
        if k:
            d["k"] = k
        return d

    def call(self, fn=None, only=None, kwp=0.35, kwwhen=0.2, vec=False):
        r = self.r
        if vec and r.random() < 0.7:
            return self.vcall(fn, only)
        if fn is None:
            names = only or [c[0] for c in CAT]
            fn = r.choices(names, [WEIGHT[n] for n in names])[0]
        _, pos, kws, _ = BY[fn]
        self.fn = fn
        if fn == "stream.span":
            return self.span()
        if fn == "stream.range":
            return self.range()
        a = [self.get(k) for k in pos.split()]
        k = {}
        for kw in kws.split():
            if r.random() < kwp:
                n, kind = kw.split(":")
                k[n] = self.get(kind)
        if "when" in pos.split() and r.random() < kwwhen and fn not in ("numeric.tm_yday", "numeric.tm_hour", "numeric.tm_min"):
            i = pos.split().index("when")
            if i == len(a) - 1:
                k["when"] = a.pop()
        d = {"fn": fn, "a": a}
        if k:
            d["k"] = k
        return d

    def tweak(self, call):
        """the same call with one argument changed a little, or to something that compares equal"""
        r = self.r
        c = {"fn": call["fn"], "a": list(call["a"])}
        if "k" in call:
            c["k"] = dict(call["k"])
        if "take" in call:
            c["take"] = call["take"]
        slots = [("a", i) for i in range(len(c["a"]))] + [("k", n) for n in c.get("k", {})]
        if not slots:
            return c
        w, i = r.choice(slots)
        v = c[w][i]
        if isinstance(v, dict) and "dt" in v and v["tz"] is not None:
            if c["fn"].startswith("stream."):
                return self.tweak_stream(c)
            c[w][i] = self.related(v)
        elif isinstance(v, (int, float)) and not isinstance(v, bool) and not c["fn"].startswith("stream."):
            num = [x for x in slots if isinstance(c[x[0]][x[1]], (int, float)) and x != (w, i)]
            if isinstance(v, int) and c["fn"].startswith(("radiation.", "solar.get_decl", "solar.equation")):
                c[w][i] = max(1, min(366, v + r.choice((-1, 1, 7))))
            elif num and r.random() < 0.15:
                w2, i2 = r.choice(num)                                           # two arguments change places
                c[w][i], c[w2][i2] = c[w2][i2], v
            else:
                k = r.randrange(9)
                c[w][i] = (v + 1e-9 if k == 0 else v * (1 + 1e-6) if k == 1 else float(v) if k == 2 else round(v, 1) if k == 3 else v + 0.004 if k == 4 else v * 0.9 if k == 5
                           else int(v) if k == 6 else -v if k == 7 else v + (0.5 if abs(v) >= 1 else 0.05))
                if v == 0 and r.random() < 0.7 or r.random() < 0.04:
                    c[w][i] = r.choice((0, 0.0, -0.0, -0.0 if math.copysign(1, v) > 0 else 0.0))
        elif isinstance(v, dict) and v.get("arr") and all(type(x) is float for x in v["arr"]) and v.get("dtype", "float64") == "float64":
            xs = list(v["arr"])
            f = r.choice((lambda x: x * (1 + 1e-6), lambda x: x + 1e-9, lambda x: x * 0.999, lambda x: x * 0.9, lambda x: -x))
            for j in range(len(xs)) if r.random() < 0.5 else (r.randrange(len(xs)),):      # all the elements or one of them
                xs[j] = f(xs[j])
            c[w][i] = dict(v, arr=xs)
        elif isinstance(v, dict) and v.get("dt64"):
            xs = list(v["dt64"])
            f = V.D.timedelta(microseconds=r.choice((1, 10 ** 6, -60 * 10 ** 6, 86400 * 10 ** 6)))
            for j in range(len(xs)) if r.random() < 0.5 else (r.randrange(len(xs)),):
                xs[j] = (V.D.datetime.fromisoformat(xs[j]) + f).isoformat(timespec="microseconds") if xs[j] != "NaT" else xs[j]
            c[w][i] = dict(v, dt64=xs)
        elif c["fn"].startswith("stream."):
            return self.tweak_stream(c)
        elif isinstance(v, str) and v in BANDS:
            c[w][i] = BANDS[1 - BANDS.index(v)]
        return c

    def tweak_stream(self, c):
        """another stream that shares most of its arguments; the span keeps its length in steps"""
        r = self.r
        a = c["a"]
        o = 3 if c["fn"] == "stream.span" else 0
        w, e, st = a[o:o + 3]
        if not (isinstance(st, (int, float)) and all(isinstance(x, dict) and x.get("tz") for x in (w, e)) and all(isinstance(x, (int, float)) for x in a[:2] if o)):
            return c     # already a broken call, or naive
        n = max(1, round((V.instant(e) - V.instant(w)) / (st * 60000000)))
        k = r.randrange(5)
        if k == 0:
            st = r.choice((st + 0.5, int(st) or 1, st * 2, float(st)))
        elif k == 1:
            w = self.related(w)
        elif k == 2:
            n += 1
        elif o and k == 3:
            i = r.randrange(2)
            a[i] = r.choice((a[i] + 0.004, round(a[i], 1), float(int(a[i])), -a[i]))
        elif o:
            a[2] = {"obj": {"horizon": r.randrange(4)}}
        a[o:o + 3] = [w, self.later(w, n, st), st]
        return c

    def span(self):
        r = self.r
        w = self.get("when")
        st = self.get("step")
        c = {"fn": "stream.span", "a": [self.get("lat"), self.get("lon"), {"obj": {"horizon": r.choice((0, 1, 2, 2, 3))}}, w,
                                        self.later(w, r.choice((1, 2, 3)), st), st], "take": r.choice((1, 2, 3))}
        k = {n: self.get(q) for n, q in (("elevation", "elev"), ("temperature", "temp"), ("pressure", "pres")) if r.random() < 0.2}
        if k:
            c["k"] = k
        return c

    def range(self):
        r = self.r
        w = self.get("when")
        st = self.get("step")
        return {"fn": "stream.range", "a": [w, self.later(w, r.randint(1, 12), st), st], "take": r.randint(1, 12)}

    def later(self, w, n, step):
        if w["tz"] is None:
            d = V.mk_dt(w) + V.D.timedelta(minutes=n * step)
            return V.dtspec(d, None)
        return V.at(V.instant(w) + round(n * step * 60000000), w["tz"])


def horizon(i):
    """horizon profiles, 361 entries (the last one 360), heights in the pixel scale of simulate_span (0 top .. 380 horizon .. more below)"""
    if i == 0:
        return [400] * 361
    if i == 1:
        return [int(380 - 60 * (1 + math.sin(math.radians(3 * d)))) for d in range(361)]
    return [380 - 200 * (d % 2) for d in range(361 if i == 2 else 360)]


class ZoneFailure(Exception):
    pass


EXC = {"ZoneFailure": ZoneFailure, "OSError": OSError, "KeyboardInterrupt": KeyboardInterrupt, "ValueError": ValueError, "MemoryError": MemoryError}


class Trigger:
    """Something happens on the n-th use of a caller-supplied object."""

    def __init__(self, spec, act=None):
        self.n, self.spec, self.act, self.busy = 0, spec, act, False

    def __call__(self):
        if self.busy or self.act is None:
            return
        self.n += 1
        if self.n in self.spec.get("at", ()):
            self.busy = True
            try:
                self.act(self.spec)
            finally:
                self.busy = False


class FaultZone(V.D.tzinfo):
    """A caller's time zone object that fails, re-enters the library or blocks on planned uses."""

    def __init__(self, spec, act=None):
        self.base = V.mk_tz(spec["base"])
        self.trig = Trigger(spec, act)

    def utcoffset(self, dt):
        self.trig()
        return self.base.utcoffset(dt)

    def dst(self, dt):
        return self.base.dst(dt)

    def tzname(self, dt):
        return "fz"

    def fromutc(self, dt):
        self.trig()
        return self.base.fromutc(dt.replace(tzinfo=self.base)).replace(tzinfo=self)

    def __repr__(self):
        return "FaultZone"


class FaultHorizon:
    """A caller's horizon profile that fails, re-enters the library or blocks on planned uses."""

    def __init__(self, spec, act=None):
        self.data = horizon(spec["horizon"])
        self.trig = Trigger(spec, act)

    def __getitem__(self, i):
        self.trig()
        return self.data[i]

    def __len__(self):
        return len(self.data)


class Env:
    """Object factories for one package instance."""

    def __init__(self, pkg, tz=None, obj=None):
        self.pkg, self._tz, self._obj = pkg, tz, obj

    def __getitem__(self, what):
        if what == "table":
            return lambda n: getattr(self.pkg.constants, n)
        if what == "tz":
            return self._tz or FaultZone
        if what == "buf":
            return self.bufs.__getitem__
        if what == "obj":
            return self._obj or default_obj
        raise KeyError(what)


def default_obj(s):
    if "horizon" in s:
        return FaultHorizon(s) if "at" in s else horizon(s["horizon"])
    raise ValueError(s)


def bind(pkg, call, env=None, objs=None):
    """-> thunk performing the planned call on this instance. Everything the caller owns is built now."""
    env = env or Env(pkg)
    if objs is None:
        mk = lambda s: V.mk(s, env)
    else:
        def mk(s):
            k = V.key(s)
            if k not in objs:
                objs[k] = V.mk(s, env)
            return objs[k]
    a = [mk(s) for s in call["a"]]
    k = {n: mk(s) for n, s in call.get("k", {}).items()}
    fn = call["fn"]
    if fn == "stream.span":
        f, take = pkg.get("simulate.simulate_span"), call["take"]
        return lambda: _take(f, a, k, take)
    if fn == "stream.range":
        f, take = pkg.get("simulate.datetime_range"), call["take"]
        return lambda: _take(f, a, k, take)
    if fn == "tables.aberration":
        g = pkg.get("constants.get_aberration_coeffs")

        def aberration():
            p = g()
            return {n: [p[n](x) for x in (-0.2, 0.1)] for n in p}
        return aberration
    if fn.startswith("numeric."):
        m, n = pkg.numeric, fn.split(".")[1]
        return lambda: getattr(m, n)(*a, **k)
    f = pkg.get(fn)
    return lambda: f(*a, **k)


def _take(f, a, k, n):
    out = []
    for x in f(*a, **k):
        out.append(x)
        if len(out) >= n:
            break
    return out
