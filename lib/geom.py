"""Independent reference geometry (scalar, standard-library mathematics)."""
import math

NAN = float("nan")

# Published coefficients (Burrell et al. 2020; Chisham et al. 2022)
ELL = {"median": (4.01, 0.55, -0.92), "gaussian": (4.41, 0.51, -0.95)}
HARM = {
    ("ampere", "median"): [3.31000535, -0.5452934, -1.24389141, 2.42619653,
                           -0.66677988, -1.03467488, -0.30763009, 0.52426756,
                           0.04359299, 0.60201848, 0.50618522, 1.04360529,
                           0.25186405],
    ("ampere", "gaussian"): [3.80100827, 0.98555723, -3.43760943, 1.85084271,
                             -0.36730751, -0.81975654, -1.02823832, 1.30637288,
                             -0.53599218, 0.40380183, -1.22462708, -1.2733629,
                             -0.62743381],
    ("si12", "ocb"): [0.0405, -1.5078, 1.0, 0.5095, 1.0, 0.9371, 1.0, 0.0708,
                      1.0, 0.0, 1.0, 0.0, 1.0],
    ("si12", "eab"): [-0.1447, -1.9779, 1.0, 2.6799, 1.0, 0.5778, 1.0, -1.2297,
                      1.0, 0.0, 1.0, 0.0, 1.0],
    ("si13", "ocb"): [0.5797, -0.6837, 1.0, -0.5020, 1.0, 0.2971, 1.0, -0.4173,
                      1.0, 0.0, 1.0, 0.0, 1.0],
    ("si13", "eab"): [0.2500, -2.9931, 1.0, 0.8818, 1.0, 0.8511, 1.0, -0.6300,
                      1.0, 0.0, 1.0, 0.0, 1.0],
    ("wic", "ocb"): [1.0298, -1.1249, 1.0, -0.7380, 1.0, 0.1838, 1.0, -0.6171,
                     1.0, 0.0, 1.0, 0.0, 1.0],
    ("wic", "eab"): [-0.4935, -2.1186, 1.0, 0.3188, 1.0, 0.5749, 1.0, -0.3118,
                     1.0, 0.0, 1.0, 0.0, 1.0]}


def hrad(mlt):
    return mlt * math.pi / 12.0


def corr(spec, mlt):
    """Radius correction for a spec: ["circular", r_add] etc."""
    if math.isnan(mlt):
        return float(spec[1]) if spec[0] == "circular" else NAN
    ang = hrad(mlt)
    if spec[0] == "circular":
        return float(spec[1])
    if spec[0] == "elliptical":
        a, e, t = ELL[spec[1]]
        return -(a * (1.0 - e * e) / (1.0 + e * math.cos(ang - t)))
    c = HARM[(spec[1], spec[2])]
    out = c[0]
    for k in (1, 2, 3):
        b = 1 + 4 * (k - 1)
        if k == 1:
            out += c[b] * math.cos(ang + c[b + 1])
            out += c[b + 2] * math.sin(ang + c[b + 3])
        else:
            out += c[b] * math.cos(k * (ang + c[b + 1]))
            out += c[b + 2] * math.sin(k * (ang + c[b + 3]))
    return -out


def polar(colat, mlt):
    return colat * math.cos(hrad(mlt)), colat * math.sin(hrad(mlt))


def centre(rec):
    """Centre of a boundary record {phi (deg from midnight), rc}."""
    phi = math.radians(rec["phi"])
    return rec["rc"] * math.cos(phi), rec["rc"] * math.sin(phi)


def normal(rec, spec, hemi, ref_lat, lat, mlt):
    """Boundary coordinates: (lat, x, y, r_corr); NaN if not defined."""
    rcor = corr(spec, mlt)
    if math.isnan(lat) or math.isnan(mlt) or lat * hemi <= 0.0:
        return NAN, NAN, NAN, rcor
    xc, yc = centre(rec)
    xp, yp = polar(90.0 - hemi * lat, mlt)
    scale = (90.0 - abs(ref_lat)) / (rec["r"] + rcor)
    xn, yn = (xp - xc) * scale, (yp - yc) * scale
    return hemi * (90.0 - math.hypot(xn, yn)), xn, yn, rcor


def revert(rec, hemi, ref_lat, olat, omlt, rcor):
    """AACGM location of a boundary location: (lat, x, y)."""
    if math.isnan(olat) or math.isnan(omlt) or math.isnan(rcor):
        return NAN, NAN, NAN
    xc, yc = centre(rec)
    xn, yn = polar(90.0 - hemi * olat, omlt)
    scale = (rec["r"] + rcor) / (90.0 - abs(ref_lat))
    xp, yp = xn * scale + xc, yn * scale + yc
    return hemi * (90.0 - math.hypot(xp, yp)), xp, yp


def boundary_lat(rec, spec, hemi, mlt):
    """Latitude of the boundary in the direction mlt; NaN if there is none."""
    rad = rec["r"] + corr(spec, mlt)
    xc, yc = centre(rec)
    ux, uy = math.cos(hrad(mlt)), math.sin(hrad(mlt))
    along = xc * ux + yc * uy
    disc = rad * rad - (rec["rc"] ** 2 - along * along)
    if disc < 0.0:
        return NAN, disc
    root = along + math.sqrt(disc)
    if root < 0.0:
        return NAN, root
    return hemi * (90.0 - root), min(disc, root)


def spherical_angle(lat, lt, plat, plt):
    """Bearing of the point (plat, plt) seen from (lat, lt), N towards E."""
    a, b = math.radians(abs(lat)), math.radians(abs(plat))
    dl = math.radians((plt - lt) * 15.0)
    return math.atan2(math.sin(dl) * math.cos(b),
                      math.cos(a) * math.sin(b)
                      - math.sin(a) * math.cos(b) * math.cos(dl))
