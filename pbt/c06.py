"""C06: particle parameters follow the configured ranges and are reported."""

import numpy as np
from hypothesis import strategies as st

from .core import Prop, Sub, Violation
from .synth import find_particles, floats, patch_radius, spot_params
from .util import require, rng, sides


def generate(seed, hw, batch, flow=None, bounds=None, offset=(0, 0), mask=None, histogram=None,
             **kw):
    """Call the generator on a zero flow (or `flow`) of the size of the bounds."""
    import jax
    import jax.numpy as jnp
    from synthpix.data_generate import generate_images_from_flow
    from synthpix.types import ImageGenerationSpecification

    base = dict(batch_size=batch, image_shape=tuple(hw), img_offset=tuple(offset),
                seeding_density_range=(0.004, 0.004), p_hide_img1=0.0, p_hide_img2=0.0,
                diameter_ranges=[(2.0, 2.0)], diameter_var=0.0, intensity_ranges=[(50.0, 50.0)],
                intensity_var=0.0, rho_ranges=[(0.0, 0.0)], rho_var=0.0)
    base.update(kw)
    for k in ("diameter_ranges", "intensity_ranges", "rho_ranges"):
        base[k] = [tuple(t) for t in base[k]]
    base["seeding_density_range"] = tuple(base["seeding_density_range"])
    bounds = tuple(bounds or hw)
    if flow is None:
        flow = np.zeros((1, 8, 8, 2), np.float32)
    i1, i2, p = generate_images_from_flow(
        jax.random.PRNGKey(seed), jnp.asarray(flow), ImageGenerationSpecification(**base),
        position_bounds=bounds, mask=mask, histogram=histogram)
    i1, i2 = np.asarray(i1, np.float64), np.asarray(i2, np.float64)
    for a in (i1, i2):
        require(a.shape == (batch, *hw), "image shape {}", a.shape)
        require(np.all(np.isfinite(a)), "an image is not finite")
    return i1, i2, p


def visible(d, bound, off, n, reach):
    """Largest, mean and mean square brightness along an axis of `bound` pixels of which n from
    `off` on are seen."""
    y = (np.arange(bound * 40) + 0.5) / 40
    k = np.floor(y)[:, None] + np.arange(-reach, reach + 1)[None, :]
    g = np.exp(-((k - y[:, None]) ** 2) / (2 * (d / 2) ** 2)) * ((k >= off) & (k < off + n))
    f = g.sum(1)
    return f.max(), f.mean(), (f * f).mean()


# -- number of particles ----------------------------------------------------
def check_count(case):
    (H, W), (a, b) = case["hw"], case["offset"]
    bounds = [H + a + case["more"][0], W + b + case["more"][1]]
    ds, B = case["ds"], case["batch"]
    area = bounds[0] * bounds[1]
    lo, hi = case["n"][0] / area, case["n"][1] / area
    i1, i2, p = generate(case["seed"], (H, W), B, bounds=bounds, offset=(a, b),
                         seeding_density_range=(lo, hi),
                         diameter_ranges=[(d, d) for d in ds], intensity_ranges=[(9.0, 9.0)],
                         p_hide_img1=case["p"][0], p_hide_img2=case["p"][1])
    s = np.asarray(p.seeding_densities, np.float64)
    require(s.shape == (B,), "seeding_densities has shape {}", s.shape)
    require(np.all((s >= lo - 1e-7) & (s <= hi + 1e-7)), "seeding densities {} not in [{}, {}]",
            s, lo, hi)
    if hi > lo:
        require(B < 3 or np.unique(s).size > 1, "all images have the seeding density {}", s[0])
        z = (s.mean() - (lo + hi) / 2) / ((hi - lo) / np.sqrt(12 * B))
        require(abs(z) < 6, "mean seeding density {} for the range [{}, {}]", s.mean(), lo, hi)
    n = np.floor(s * area + 1e-3)
    # brightness of a spot: largest, mean and mean square over the places in the bounds
    rep = np.asarray(p.diameter_ranges, np.float64).reshape(B, 2)[:, 0]
    top, mean, var = np.zeros(B), np.zeros(B), np.zeros(B)
    for d in ds:
        (ty, ey, qy), (tx, ex, qx) = (visible(d, bo, o, w, patch_radius(max(ds))) for bo, o, w in
                                      zip(bounds, (a, b), (H, W)))
        at = np.isclose(rep, d)
        top[at], mean[at], var[at] = 9 * ty * tx, 9 * ey * ex, 81 * (qy * qx - (ey * ex) ** 2)
    require(np.all(top > 0), "reported diameters {}, configured are {}", rep, ds)
    same = True
    for f, ims in enumerate((i1, i2)):
        q = 1 - case["p"][f]
        for i in range(B):
            m = ims[i].sum()
            require(m <= n[i] * top[i] * 1.01 + 0.1 and (q > 0 or m < 1e-3),
                    "image {} of pair {} shows {:.2f} particles, more than the {} of its density "
                    "{} (hiding {})", f + 1, i, m / top[i], n[i], s[i], 1 - q)
        exp = (n * mean).sum()
        sd = np.sqrt((n * (q * var + q * (1 - q) * mean**2)).sum()) + 0.1 * mean.max()
        require(abs(ims.sum() - q * exp) <= 6 * sd + 0.005 * exp,
                "images {} are of brightness {:.1f}, the densities make {} particles on {} "
                "pixels, of which a share of {} is hidden: {:.1f}", f + 1, ims.sum(), n.sum(),
                bounds, 1 - q, q * exp)
    for i in range(B):
        same &= bool(np.allclose(i1[i], i2[i], atol=1e-3))
    shown = n.sum() * H * W / area
    if shown >= 40 and any(0.1 <= q <= 0.9 for q in case["p"]):
        require(not same, "the same particles are hidden in both images")
    lab = ["hide" if any(case["p"]) else "all visible"]
    if hi > lo:
        lab.append("density range")
    if bounds != [H, W]:
        lab.append("larger area")
    if len(ds) > 1:
        lab.append("several diameters")
    return {"nontrivial": n.sum() > 0, "labels": lab}


@st.composite
def count_cases(draw, tier="quick"):
    large = draw(st.booleans())
    top = 30 if large else 9
    a, b = sorted([draw(st.integers(0, top)), draw(st.integers(0, top))])
    if draw(st.booleans()):
        b = a
    side = st.sampled_from([0, 4, 10, 25]) if large else st.just(0)
    return {"hw": draw(sides(20, 48)),
            "offset": [draw(side), draw(side)], "more": [draw(side), draw(side)],
            "ds": draw(st.sampled_from([[2.0], [2.7], [4.0], [2.0, 5.0], [4.0, 1.5],
                                        [1.5, 3.0, 6.0]])), "batch": draw(st.integers(1, 24)),
            "n": [a + 0.5 if a else 0.0, b + 0.5 if b else 0.0],
            "p": draw(st.sampled_from([[0.0, 0.0], [0.0, 0.0], [0.0, 1.0], [1.0, 0.0],
                                       [0.3, 0.3], [0.5, 0.0], [0.0, 0.7], [0.5, 0.5]])),
            "seed": draw(st.integers(0, 2**20))}


# -- parameters of the particles --------------------------------------------
def fits(img, margin):
    """Isolated particles: position, amplitude, diameters (x, y) and correlation."""
    H, W = img.shape
    out = []
    for f in find_particles(img, tol=1e-3):
        if margin <= f[0] <= H - 1 - margin and margin <= f[1] <= W - 1 - margin:
            if not alone(img, f):
                continue
            sy, sx, r = spot_params(f[3:])
            out.append((f[0], f[1], f[2], 2 * sx, 2 * sy, r))
    return np.array(out).reshape(-1, 6)


def alone(img, f):
    """Whether the 5x5 neighbourhood shows nothing but the fitted spot."""
    y, x, amp, hyy, hxx, hxy = f
    i, j = int(round(y)), int(round(x))
    w = img[i - 2:i + 3, j - 2:j + 3]
    if w.shape != (5, 5):
        return False
    u = np.arange(i - 2, i + 3)[:, None] - y
    v = np.arange(j - 2, j + 3)[None, :] - x
    m = amp * np.exp(-0.5 * (hyy * u * u + hxx * v * v) - hxy * u * v)
    return np.abs(w - m).max() < 0.004 * amp


def spread(x, lo, hi, what):
    """Uniform values of [lo, hi] have their mean in the middle."""
    n = len(x)
    if n < 30 or hi <= lo:
        return
    u = (np.asarray(x) - lo) / (hi - lo)
    require(abs(u.mean() - 0.5) < 6 * np.sqrt(1 / 12 / n) + 0.08,
            "{} spread unevenly over [{}, {}]: {} values of mean {:.3f}", what, lo, hi, n,
            np.mean(x))


def check_params(case):
    hw, B = case["hw"], case["batch"]
    D, I, R = case["D"], case["I"], case["R"]
    dv, iv, rv = case["dv"], case["iv"], case["rv"]
    i1, i2, p = generate(
        case["seed"], hw, B, seeding_density_range=(case["density"] * case["low"],
                                                   case["density"]),
        diameter_ranges=D, intensity_ranges=I, rho_ranges=R, diameter_var=dv, intensity_var=iv,
        rho_var=rv)
    rep = {}
    for name, got, conf in (("diameter", p.diameter_ranges, D),
                            ("intensity", p.intensity_ranges, I), ("rho", p.rho_ranges, R)):
        got = np.asarray(got, np.float64)
        require(got.shape == (B, 2), "{}_ranges has shape {}", name, got.shape)
        used = set()
        for i in range(B):
            k = [j for j, c in enumerate(conf) if np.allclose(got[i], c, rtol=1e-5, atol=1e-6)]
            require(k, "{}_ranges[{}] is {}, configured are {}", name, i, got[i], conf)
            used.update(k)
        if B >= 48:
            require(len(used) == len(conf), "only the {} ranges {} of {} are used in {} images",
                    name, sorted(used), conf, B)
        rep[name] = got
    margin = patch_radius(max(d[1] for d in D)) + 2
    diffs, dists = [], {}
    n = 0
    out, checked = {}, {}  # particles outside of the reported range
    for i in range(B):
        f1, f2 = fits(i1[i], margin), fits(i2[i], margin)
        for frame, f in ((1, f1), (2, f2)):
            for y, x, amp, dx, dy, r in f:
                n += 1
                for name, v, tol in (("intensity", amp, 0.02 * amp), ("diameter", dx, 0.05),
                                     ("diameter", dy, 0.05), ("rho", r, 0.04)):
                    lo, hi = rep[name][i]
                    checked[name, i] = checked.get((name, i), 0) + 1
                    if not lo - tol <= v <= hi + tol:
                        out.setdefault((name, i), []).append(
                            f"pair {i}, image {frame}: the particle at ({y:.1f}, {x:.1f}) has "
                            f"{name} {v:.3f}, the reported range is [{lo:.3f}, {hi:.3f}]")
                if frame == 1:
                    for name, v in (("intensity", amp), ("diameter", dx), ("rho", r)):
                        dists.setdefault((name, *rep[name][i]), []).append(v)
        for a in f1:  # no motion: the same particle is at the same place
            if len(f2) == 0:
                continue
            j = np.argmin(np.hypot(f2[:, 0] - a[0], f2[:, 1] - a[1]))
            if np.hypot(f2[j, 0] - a[0], f2[j, 1] - a[1]) < 0.15:
                diffs.append(f2[j, 2:] - a[2:])
    # two particles in one place pass for one of their own, which is rare
    for (name, i), v in out.items():
        if len(v) >= 3 and 2 * len(v) > checked[name, i]:
            raise Violation(f"{v[0]} (and {len(v) - 1} of {checked[name, i]} others)")
    for name in ("intensity", "diameter", "rho"):
        v = [t for (m, _), ts in out.items() if m == name for t in ts]
        require(len(v) <= 4 + 0.03 * n, "{} of {} particles are out of range: {}", len(v), n,
                v[:1])
    for (name, lo, hi), v in dists.items():
        spread(v, lo, hi, f"first-frame values of {name}")
    diffs = np.array(diffs).reshape(-1, 4)
    names = ["intensity", "x diameter", "y diameter", "rho"]
    for c, var in enumerate((iv, dv, dv, rv)):
        x = diffs[:, c]
        if var == 0:
            tol = [2.0, 0.06, 0.06, 0.04][c]
            require((np.abs(x) > tol).sum() <= 3 + 0.03 * len(x),
                    "the {} of {} of {} particles changes between the frames by up to {:.3f}, "
                    "its variance is 0", names[c], (np.abs(x) > tol).sum(), len(x),
                    np.abs(x).max(initial=0))
        elif len(x) >= 150 and not case["narrow"]:
            ratio = np.mean(x * x) / var
            require(0.35 < ratio < 1.8, "the {} changes between the frames with variance "
                    "{:.4g} over {} particles, configured is {}", names[c], np.mean(x * x),
                    len(x), var)
            require(abs(x.mean()) < 0.6 * np.sqrt(var), "the {} drifts by {:.3f} between the "
                    "frames", names[c], x.mean())
    if dv and len(diffs) >= 150 and not case["narrow"]:
        r = np.corrcoef(diffs[:, 1], diffs[:, 2])[0, 1]
        require(abs(r) < 0.6, "both diameters vary together (correlation {:.2f})", r)
    lab = [f"ranges {len(D)}{len(I)}{len(R)}"]
    if dv or iv or rv:
        lab.append("variation beyond the range" if case["narrow"] else "variation")
    return {"nontrivial": n >= 50, "labels": lab}


VARIATION = {"fixed": [[0.0]] * 3,  # of the diameters, the intensity and the correlation
             "vary": [[0.0, 0.01, 0.02], [0.0, 16.0, 49.0], [0.0, 0.0025, 0.004]],
             "narrow": [[0.0, 0.16, 0.64], [0.0, 400.0, 3600.0], [0.0, 0.04, 0.16]]}


@st.composite
def param_cases(draw, tier="quick"):
    kind = draw(st.sampled_from(["fixed", "vary", "narrow"]))
    vary = kind != "fixed"
    if kind == "narrow":  # the variation goes beyond the ranges and is clipped to them
        D = draw(st.sampled_from([[[2.2, 2.6]], [[1.9, 2.2], [3.0, 3.4]]]))
        I = draw(st.sampled_from([[[60.0, 90.0]], [[30.0, 50.0], [140.0, 180.0]]]))
        R = draw(st.sampled_from([[[-0.2, 0.2]], [[-0.5, -0.3], [0.3, 0.5]]]))
    elif vary:  # wide ranges, so that clipping to them hardly matters
        # (the second value is drawn within one pixel of the first diameter)
        D = [[2.0, 3.6]]
        I = [[40.0, 200.0]]
        R = [[-0.6, 0.6]]
    else:
        D = draw(st.sampled_from([[[2.0, 2.4]], [[1.8, 2.2], [3.0, 3.4]],
                                  [[1.8, 2.0], [2.4, 2.6], [3.2, 3.4]], [[2.5, 2.5]]]))
        I = draw(st.sampled_from([[[40.0, 90.0]], [[30.0, 60.0], [140.0, 200.0]],
                                  [[20.0, 40.0], [70.0, 90.0], [150.0, 180.0]], [[77.0, 77.0]]]))
        R = draw(st.sampled_from([[[-0.2, 0.2]], [[-0.6, -0.4], [0.3, 0.5]], [[0.0, 0.0]],
                                  [[-0.7, -0.5], [-0.1, 0.1], [0.5, 0.7]]]))
    return {"hw": [draw(st.integers(44, 72)), draw(st.integers(44, 72))],
            "batch": draw(st.sampled_from([12, 48, 50])), "D": D, "I": I, "R": R,
            "density": draw(st.sampled_from([0.003, 0.004])),
            "low": draw(st.sampled_from([1.0, 0.5])),
            "narrow": kind == "narrow",
            "dv": draw(st.sampled_from(VARIATION[kind][0])),
            "iv": draw(st.sampled_from(VARIATION[kind][1])),
            "rv": draw(st.sampled_from(VARIATION[kind][2])),
            "seed": draw(st.integers(0, 2**20))}


PROP = Prop("C06", [
    Sub("count", lambda tier: count_cases(tier), check_count, 40, 1500,
        "image pairs of 0 to 9 identical particles: the brightness counts them against the "
        "reported density and the hiding probabilities; non-trivial: some particle"),
    Sub("params", lambda tier: param_cases(tier), check_params, 40, 1500,
        "pairs with several ranges per parameter and with variation: amplitude, diameters and "
        "correlation of isolated particles, measured in the images, against the reported ranges "
        "and variances; non-trivial: at least 50 measured particles"),
], assumptions=("statistics over random particles are accepted within six standard deviations",))
