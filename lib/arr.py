"""Generated arrays and skies, and the geometry of an interferometer from first principles (for P01-P03, F01)."""
import numpy as np
TAU = 2 * np.pi


def freqs(rng, n=None):
    n = n or int(rng.choice([1, 1, 2, 3, 5, 8]))
    f = np.linspace(.1, .2, n) if rng.random() < .6 else np.sort(rng.uniform(.05, 1.5, size=n))
    return f if n > 1 else np.array([float(rng.uniform(.05, 1.5))])


def channels(rng, n, prev=None):
    """A choice of channels: of any number and order, or differing from the previous choice in its middle only."""
    if prev is not None and 2 < len(prev) < n and rng.random() < .4:
        rest = rng.permutation(np.setdiff1d(np.arange(n), prev[[0, -1]]))
        return np.concatenate([prev[:1], rest[:len(prev) - 2], prev[-1:]])
    c = rng.permutation(n)[:rng.integers(1, n + 1)]
    return np.sort(c) if rng.random() < .3 else c


def location(rng):
    """(lat, long[, elev]) as floats or strings, and the latitude and longitude in radians."""
    import ephem
    lat = float(rng.uniform(-89.9, 89.9)) if rng.random() < .8 else float(rng.choice([0, 45, -30.7]))
    lon = float(rng.uniform(-180, 180))
    if rng.random() < .5:
        loc = (str(ephem.degrees(np.radians(lat))), str(ephem.degrees(np.radians(lon))))
    else:
        loc = (np.radians(lat), np.radians(lon))
        loc = tuple(float(x) for x in loc)
    if rng.random() < .3:
        loc = loc + (float(rng.uniform(0, 5000)),)
    return loc, float(ephem.degrees(loc[0])), float(ephem.degrees(loc[1]))


def positions(rng, n):
    scale = 10.**rng.uniform(0, 4)
    p = rng.normal(size=(n, 3)) * scale
    if rng.random() < .3:
        p = np.round(p)
    if rng.random() < .2:
        p[:, 2] = 0
    if rng.random() < .1 and n > 1:
        p[-1] = p[0]
    return p


def jultime(rng):
    """A Julian date between 1970 and 2050."""
    return float(rng.uniform(2440587.5, 2469807.5))


def gmst(jd, lon):
    """Mean sidereal time at a longitude (radians); UT1 = UTC."""
    d = jd - 2451545.0
    T = d / 36525
    g = 280.46061837 + 360.98564736629 * d + .000387933 * T**2 - T**3 / 38710000.
    return np.radians(g) + lon


def axes(H, dec):
    """u, v, w unit vectors in hour-angle equatorial coordinates (x to the meridian, z north) for a direction at hour angle H."""
    w = np.array([np.cos(dec) * np.cos(H), -np.cos(dec) * np.sin(H), np.sin(dec)])
    u = np.array([np.sin(H), np.cos(H), 0 * H])
    v = np.array([-np.sin(dec) * np.cos(H), np.sin(dec) * np.sin(H), np.cos(dec)])
    return np.array([u, v, w])


def eq(ra, dec):
    return np.array([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)])


def angle(a):
    """Wrapped to (-pi, pi]."""
    return (np.asarray(a) + np.pi) % TAU - np.pi


def sky(rng, n, lst, lat, up=None):
    """Equatorial vectors (3, n); with `up`, all above (True) or below (False) the horizon by a margin."""
    out = []
    while len(out) < n:
        d = rng.normal(size=3)
        d /= np.linalg.norm(d)
        if rng.random() < .3:       # near the zenith
            d = eq(lst, lat) + rng.normal(size=3) * .3
            d /= np.linalg.norm(d)
        s = np.dot(d, eq(lst, lat))
        if abs(s) < 1e-6 or (up is not None and (s > .02) != up):
            continue
        out.append(d)
    return np.array(out).T.reshape(3, n)
