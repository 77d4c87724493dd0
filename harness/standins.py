"""numpy stand-ins for cratermaker's Rust extension (which cannot be built offline).

They follow crates/cratermaker-components/src closely enough to drive the Python code end to end (same
signatures, same array shapes, same conservation behaviour).  Only the Python code is under test; these
functions are part of the environment of the specification.
"""
import sys
import types

import numpy as np

CALLS = []          # optional call log (the harness may clear/read it)


def _wrap(a):
    return np.mod(a + np.pi, 2 * np.pi) - np.pi


def _dist(lon1, lat1, lon2, lat2, radius):
    dlon = _wrap(lon2 - lon1)
    dlat = lat2 - lat1
    a = np.sin(dlat / 2) ** 2 + np.cos(lat1) * np.cos(lat2) * np.sin(dlon / 2) ** 2
    return radius * 2 * np.arcsin(np.sqrt(np.clip(a, 0, 1)))


def _bear(lon1, lat1, lon2, lat2):
    dlon = _wrap(lon2 - lon1)
    return np.arctan2(np.sin(dlon) * np.cos(lat2), np.cos(lat1) * np.sin(lat2) - np.sin(lat1) * np.cos(lat2) * np.cos(dlon))


def compute_edge_distances(edge_connectivity, lon, lat, radius):
    e = np.asarray(edge_connectivity)
    lon, lat = np.asarray(lon, float), np.asarray(lat, float)
    o1, o2 = e[:, 0], e[:, 1]
    ok = (o1 >= 0) & (o2 >= 0)
    out = np.zeros(len(e))
    out[ok] = _dist(lon[o1[ok]], lat[o1[ok]], lon[o2[ok]], lat[o2[ok]], radius)
    return out


def compute_distances(lon1, lat1, lon2, lat2, radius):
    return np.atleast_1d(_dist(float(lon1), float(lat1), np.asarray(lon2, float), np.asarray(lat2, float), radius))


def compute_bearings(lon1, lat1, lon2, lat2):
    return np.atleast_1d(np.mod(_bear(float(lon1), float(lat1), np.asarray(lon2, float), np.asarray(lat2, float)), 2 * np.pi))


def compute_location_from_distance_bearing(lon1, lat1, distances, bearings, radius):
    d, b = np.asarray(distances, float) / radius, np.asarray(bearings, float)
    lat2 = np.arcsin(np.sin(lat1) * np.cos(d) + np.cos(lat1) * np.sin(d) * np.cos(b))
    lon2 = lon1 + np.arctan2(np.sin(b) * np.sin(d) * np.cos(lat1), np.cos(d) - np.sin(lat1) * np.sin(lat2))
    return np.stack([_wrap(lon2), _wrap(lat2)], axis=1)


def _edge_pairs(region):
    e = np.asarray(region.edge_face_connectivity)
    n = region.n_face
    ok = (e[:, 0] >= 0) & (e[:, 1] >= 0) & (e[:, 0] < n) & (e[:, 1] < n)
    return ok, e[ok, 0], e[ok, 1]


def _dt_max(kappa, region):
    ok, f1, f2 = _edge_pairs(region)
    d = np.asarray(region.edge_face_distance)[ok]
    ln = np.asarray(region.edge_length)[ok]
    area = np.asarray(region.face_area)
    kavg = 0.5 * (kappa[f1] + kappa[f2])
    use = (d > 0) & (kavg > 0)
    inv = np.zeros(region.n_face)
    c = 2 * kavg[use] * ln[use] / d[use]
    np.add.at(inv, f1[use], c / area[f1[use]])
    np.add.at(inv, f2[use], c / area[f2[use]])
    inv = inv[inv > 0]
    return np.min(1 / inv) if inv.size else np.inf


def apply_diffusion(face_kappa, face_variable, region):
    k = np.asarray(face_kappa, float)
    v = np.asarray(face_variable, float)
    delta = np.zeros(region.n_face)
    dtm = _dt_max(k, region)
    if not np.isfinite(dtm) or dtm <= 0:
        return delta
    nloops = int(min(np.ceil(1 / dtm), 20000))
    dt = 1.0 / nloops
    ok, f1, f2 = _edge_pairs(region)
    d = np.asarray(region.edge_face_distance)[ok]
    ln = np.asarray(region.edge_length)[ok]
    area = np.asarray(region.face_area)
    use = d > 0
    f1, f2, w = f1[use], f2[use], ln[use] / d[use] * (k[f1[use]] + k[f2[use]])
    n = region.n_face
    for _ in range(nloops):
        h = v + delta
        flux = w * (h[f2] - h[f1])
        dh = np.bincount(f1, flux, n) - np.bincount(f2, flux, n)
        delta += dt / 2 * dh / area
    return delta


def _grad(variable, region):
    ok, f1, f2 = _edge_pairs(region)
    d = np.asarray(region.edge_face_distance)[ok]
    ln = np.asarray(region.edge_length)[ok]
    lon, lat = np.radians(np.asarray(region.face_lon)), np.radians(np.asarray(region.face_lat))
    v = np.asarray(variable, float)
    use = (d > 0) & (ln > 0)
    f1, f2, d, ln = f1[use], f2[use], d[use], ln[use]
    n = region.n_face
    gz, gm, w, cnt = np.zeros(n), np.zeros(n), np.zeros(n), np.zeros(n, int)
    for a, b in ((f1, f2), (f2, f1)):
        th = _bear(lon[a], lat[a], lon[b], lat[b])
        flux = (v[b] - v[a]) * ln / d
        gz += np.bincount(a, flux * np.sin(th), n)
        gm += np.bincount(a, flux * np.cos(th), n)
        w += np.bincount(a, ln, n)
        cnt += np.bincount(a, minlength=n)
    w[w == 0] = 1
    gz, gm = gz / w, gm / w
    gz[cnt < 2] = 0
    gm[cnt < 2] = 0
    return gz, gm


def compute_radial_gradient(variable, region):
    gz, gm = _grad(variable, region)
    b = np.radians(np.asarray(region.face_bearing))
    return gm * np.cos(b) + gz * np.sin(b)


def compute_slope(region):
    gz, gm = _grad(region.face_elevation, region)
    return np.sqrt(gz**2 + gm**2)


def slope_collapse(critical_slope, region):
    n = region.n_face
    dm = _dt_max(np.ones(n), region)
    base = np.asarray(region.face_elevation, float)
    delta = np.zeros(n)
    for _ in range(50):
        gz, gm = _grad(base + delta, region)
        s2 = gz**2 + gm**2
        kap = np.where(s2 > critical_slope**2, dm * (1 + s2 / critical_slope**2) * 10.0, 0.0)
        kap = np.minimum(kap, dm * 200)
        if not np.any(kap > 0):
            break
        delta += apply_diffusion(kap, base + delta, region)
    return delta


def interpolate_node_elevation_from_faces(region):
    nfc = np.asarray(region.node_face_connectivity)
    el, ar = np.asarray(region.face_elevation, float), np.asarray(region.face_area, float)
    ok = nfc >= 0
    idx = np.where(ok, nfc, 0)
    w = np.where(ok, ar[idx], 0.0)
    s = w.sum(axis=1)
    out = np.zeros(region.n_node)
    nz = s > 0
    out[nz] = (np.where(ok, el[idx], 0.0) * w).sum(axis=1)[nz] / s[nz]
    return out


def turbulence_noise(x, y, z, noise_height, noise_width, freq, pers, anchor, seed):
    anchor = np.asarray(anchor, float)
    x, y, z = (np.asarray(q, float) for q in (x, y, z))
    out = np.zeros_like(x)
    norm = 0.5
    for i in range(anchor.shape[0]):
        f = freq**i / noise_width
        mag = pers**i
        norm += 0.5 * mag
        ph = (seed % 997) / 997.0
        out += mag * np.sin(f * x + anchor[i, 0] + ph) * np.sin(f * y + anchor[i, 1]) * np.cos(f * z + anchor[i, 2])
    return out * noise_height / norm


def crater_profile(radial_distances, reference_elevations, diameter, floor_depth, floor_diameter, rim_height, ejrim):
    r = np.asarray(radial_distances, float)
    ref = np.asarray(reference_elevations, float)
    assert r.shape == ref.shape
    A, B = 4 / 11, -32 / 187
    fl = floor_diameter / diameter
    rad = diameter / 2
    c1 = (floor_depth - rim_height) / (fl - 1 + A * (fl**2 - 1) + B * (fl**3 - 1))
    c0 = rim_height - c1 * (1 + A + B)
    inside = r <= rad
    mref = ref[inside].mean() if inside.any() else ref[np.argmin(r)]
    rn = r / rad
    with np.errstate(divide="ignore", over="ignore"):
        out = np.where(rn >= 1, ref + (rim_height - ejrim) * np.maximum(rn, 1.0) ** -4.2, ref + c0 + c1 * rn + A * c1 * rn**2 + B * c1 * rn**3)
    return np.where(inside, np.maximum(out, mref + floor_depth), out)


def ejecta_profile(radial_distance, crater_diameter, ejrim):
    r = np.asarray(radial_distance, float) / (crater_diameter / 2)
    return np.where(r >= 1, ejrim * np.maximum(r, 1.0) ** -3.0, 0.0)


def ray_intensity(radial_distance, initial_bearing, crater_diameter, seed):
    r = np.asarray(radial_distance, float) / (crater_diameter / 2)
    th = np.asarray(initial_bearing, float)
    g = np.random.default_rng(int(seed))
    n, ph = int(g.integers(3, 7)), g.uniform(0, 2 * np.pi)
    v = np.where(r >= 1, 0.2 + np.cos(n * th + ph) ** 2, 0.0)
    m = v[r >= 1].max() if (r >= 1).any() else 1.0
    return np.where(r >= 1, v / m, v)


def _mask(region, crater):
    ids = np.asarray(region.crater_id)
    if ids.ndim == 1:
        ids = ids[:, None]
    return np.any(ids == crater.id, axis=1)


def measure_floor_depth(region, crater):
    m = _mask(region, crater)
    e = np.asarray(region.face_elevation, float)[m]
    d = np.asarray(region.face_distance, float)[m]
    s = d <= 0.2 * crater.measured_radius
    if not s.any():
        return sys.float_info.max      # as the Rust fold over no faces does
    return float(e[s].mean())


def measure_rim_height(region, crater):
    m = _mask(region, crater)
    e = np.asarray(region.face_elevation, float)[m]
    d = np.asarray(region.face_distance, float)[m]
    s = (d >= 0.95 * crater.measured_radius) & (d <= 1.2 * crater.measured_radius)
    if not s.any():
        return -sys.float_info.max
    return float(e[s].mean())


def fit_rim(surface, crater, tol, nloops, score_quantile, fit_center, fit_ellipse):
    """Deterministic 'fit': the stored rim parameters, slightly enlarged.  (location, ap, bp, orientation)"""
    loc = crater.measured_location
    return (loc[0], loc[1]), crater.measured_semimajor_axis * 1.0625, crater.measured_semiminor_axis * 1.0, crater.measured_orientation


def score_rim(region, crater, quantile, gradmult, curvmult, heightmult):
    return region


def install():
    """Install as cratermaker.bindings unless a real extension exists."""
    pkg = types.ModuleType("cratermaker.bindings")
    groups = {
        "surface_bindings": [compute_edge_distances, compute_distances, compute_bearings, compute_location_from_distance_bearing,
                             apply_diffusion, compute_radial_gradient, compute_slope, slope_collapse,
                             interpolate_node_elevation_from_faces, turbulence_noise],
        "morphology_bindings": [crater_profile, ejecta_profile, ray_intensity],
        "counting_bindings": [measure_floor_depth, measure_rim_height, fit_rim, score_rim],
    }
    sys.modules["cratermaker.bindings"] = pkg
    for g, fns in groups.items():
        m = types.ModuleType("cratermaker.bindings." + g)
        for f in fns:
            setattr(m, f.__name__, f)
        setattr(pkg, g, m)
        sys.modules["cratermaker.bindings." + g] = m
