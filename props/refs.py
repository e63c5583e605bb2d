"""Independent reference formulas (published series and textbook definitions), on numpy arrays."""
import numpy as np

RAD = np.pi / 180


def cent(jd):
    return (jd - 2451545.0) / 36525.0


def poly(t, *c):
    r = 0.0 * t
    for k in reversed(c):
        r = r * t + k
    return r


# Meeus, Astronomical Algorithms, ch. 22
def elongation(jd): return poly(cent(jd), 297.85036, 445267.111480, -0.0019142, 1 / 189474) % 360
def anomaly_sun(jd): return poly(cent(jd), 357.52772, 35999.050340, -0.0001603, -1 / 300000) % 360
def anomaly_moon(jd): return poly(cent(jd), 134.96298, 477198.867398, 0.0086972, 1 / 56250) % 360
def arg_lat_moon(jd): return poly(cent(jd), 93.27191, 483202.017538, -0.0036825, 1 / 327270) % 360
def node(jd): return poly(cent(jd), 125.04452, -1934.136261, 0.0020708, 1 / 450000) % 360
def long_sun(jd): return poly(cent(jd), 280.46645, 36000.76983)
def long_moon(jd): return poly(cent(jd), 218.3165, 481267.8813)


def nutation(jd):
    """(longitude, obliquity) in arcsec."""
    om, l, lm = node(jd) * RAD, long_sun(jd) * RAD, long_moon(jd) * RAD
    return (-17.20 * np.sin(om) - 1.32 * np.sin(2 * l) - 0.23 * np.sin(2 * lm) + 0.21 * np.sin(2 * om),
            9.20 * np.cos(om) + 0.57 * np.cos(2 * l) + 0.10 * np.cos(2 * lm) - 0.09 * np.cos(2 * om))


def zeta(jd): return poly(cent(jd), 2.5976176, 2306.0809506, 0.3019015, 0.0179663, -0.0000327, -0.0000002)
def theta(jd): return poly(cent(jd), 0, 2004.1917476, -0.4269353, -0.0418251, -0.0000601, -0.0000001)
def z_angle(jd): return poly(cent(jd), -2.5976176, 2306.0803226, 1.0947790, 0.0182273, 0.0000470, -0.0000003)


def obliquity(jd):
    """Laskar, degrees."""
    return poly(cent(jd) / 100, 84381.448, -4680.93, -1.55, 1999.25, -51.38, -249.67, -39.05, 7.12, 27.87, 5.79, 2.45) / 3600


def apparent_obliquity(jd): return obliquity(jd) + nutation(jd)[1] / 3600
def eccentricity(jd): return poly(cent(jd), 0.016708634, -0.000042037, -0.0000001267)


def equation_of_time(jd):
    """Radians."""
    y = np.tan(apparent_obliquity(jd) * RAD / 2) ** 2
    L, M, e = long_sun(jd) * RAD, anomaly_sun(jd) * RAD, eccentricity(jd)
    return (y * np.sin(2 * L) - 2 * e * np.sin(M) + 4 * e * y * np.sin(M) * np.cos(2 * L)
            - 0.5 * y * y * np.sin(4 * L) - 1.25 * e * e * np.sin(2 * M))


def equation_of_equinoxes(jd):
    """Seconds of time."""
    return nutation(jd)[0] * np.cos(apparent_obliquity(jd) * RAD) / 15


def sun_ra(jd):
    """Radians in [0, 2 pi)."""
    t, M = cent(jd), anomaly_sun(jd) * RAD
    C = poly(t, 1.914602, -0.004817, -0.000014) * np.sin(M) + poly(t, 0.019993, -0.000101) * np.sin(2 * M) + 0.000289 * np.sin(3 * M)
    lam, e = (long_sun(jd) + C) * RAD, obliquity(jd) * RAD
    return np.arctan2(np.cos(e) * np.sin(lam), np.cos(lam)) % (2 * np.pi)


def era(jd):
    """IAU 2000 Earth rotation angle, degrees."""
    d = jd - 2451545.0
    return (280.46061837504 + 360.985612288088 * d) % 360


def gmst_deg(jd):
    d, t = jd - 2451545.0, cent(jd)
    return (280.46061837 + 360.98564736629 * d + 0.000387933 * t ** 2 - t ** 3 / 38710000) % 360


def Rx(a): return _rot(a, 0)
def Ry(a): return _rot(a, 1)
def Rz(a): return _rot(a, 2)


def _rot(a, ax):
    """Frame rotation matrices R1, R2, R3."""
    a = np.asarray(a, float)
    c, s = np.cos(a), np.sin(a)
    m = np.zeros(a.shape + (3, 3))
    i, j = [(1, 2), (2, 0), (0, 1)][ax]
    m[..., ax, ax] = 1
    m[..., i, i] = c
    m[..., j, j] = c
    m[..., i, j] = s
    m[..., j, i] = -s
    return m


AS = RAD / 3600


def bias():
    return Rx(0.0068192 * AS) @ Ry(-0.016617 * AS) @ Rz(-0.0146 * AS)


def precession(jd):
    return Rz(-z_angle(jd) * AS) @ Ry(theta(jd) * AS) @ Rz(-zeta(jd) * AS)


def nutation_m(jd):
    e = poly(cent(jd), 84381.448, -46.84024, -0.00059, 0.001813) * AS
    p, o = nutation(jd)
    return Rx(-(e + o * AS)) @ Rz(-p * AS) @ Rx(e)


def gcrs2itrs(jd):
    """R3(GAST) N P B"""
    return Rz((gmst_deg(jd) + equation_of_equinoxes(jd) / 240) * RAD) @ nutation_m(jd) @ precession(jd) @ bias()


# ---------------------------------------------------------------- calendar
def civil(jd):
    """(year, month, day with fraction): Julian calendar before 1582-10-15, Gregorian after."""
    z = np.floor(jd + 0.5)
    f = jd + 0.5 - z
    g = z >= 2299161
    # Gregorian: days since 0000-03-01 (JDN 1721120)
    n = z - 1721120
    era_ = np.floor(n / 146097)
    doe = n - era_ * 146097
    yoe = np.floor((doe - np.floor(doe / 1460) + np.floor(doe / 36524) - np.floor(doe / 146096)) / 365)
    yg = yoe + era_ * 400
    dg = doe - (365 * yoe + np.floor(yoe / 4) - np.floor(yoe / 100))
    # Julian: days since 0000-03-01 Julian (JDN 1721118)
    n = z - 1721118
    e4 = np.floor(n / 1461)
    doe = n - e4 * 1461
    yoe = np.floor((doe - np.floor(doe / 1460)) / 365)
    yj = yoe + e4 * 4
    dj = doe - 365 * yoe
    y, d = np.where(g, yg, yj), np.where(g, dg, dj)
    mp = np.floor((5 * d + 2) / 153)
    day = d - np.floor((153 * mp + 2) / 5) + 1
    m = np.where(mp < 10, mp + 3, mp - 9)
    return y + (m <= 2), m, day + f


def is_leap(y):
    g = (y % 4 == 0) & ((y % 100 != 0) | (y % 400 == 0))
    return np.where(y < 1582.5, y % 4 == 0, g)


CUM = np.array([0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334])
MLEN = np.array([0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31])


def yday(jd):
    y, m, d = civil(jd)
    mi = m.astype(int)
    return CUM[mi] + np.floor(d) + ((mi > 2) & is_leap(y))


def greg_ordinal(y, m, d):
    """JDN of a proleptic Gregorian date."""
    a = np.floor((14 - m) / 12)
    yy, mm = y + 4800 - a, m + 12 * a - 3
    return d + np.floor((153 * mm + 2) / 5) + 365 * yy + np.floor(yy / 4) - np.floor(yy / 100) + np.floor(yy / 400) - 32045


# ---------------------------------------------------------------- WGS84
WA, WF = 6378.137, 1 / 298.257223563
WB = WA * (1 - WF)
WE2 = WF * (2 - WF)


def wgs2itrs(lat, lon, h):
    """radians, km"""
    n = WA / np.sqrt(1 - WE2 * np.sin(lat) ** 2)
    return np.stack([(n + h) * np.cos(lat) * np.cos(lon), (n + h) * np.cos(lat) * np.sin(lon), (n * (1 - WE2) + h) * np.sin(lat)], -1)
