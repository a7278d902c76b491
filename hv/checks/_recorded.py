"""The bundled data tables against the published ones (recorded in ref/tables.npz)."""
import csv
import pathlib

import numpy as np

from .. import build

FILE = pathlib.Path(__file__).resolve().parents[2] / "ref" / "tables.npz"
GROUPS = {
    "instruments": ["hazma/gamma_ray_data/A_eff/*.dat", "hazma/gamma_ray_data/energy_res/*.dat", "hazma/gamma_ray_data/obs/*.dat", "hazma/gamma_ray_data/bg_model/*.dat"],
    "cmb": ["hazma/cmb_data/*.dat", "hazma/limits/data/*.dat"],
    "black holes": ["hazma/pbh_data/*.csv"],
    "photon": ["hazma/spectra/_photon/data/*.csv"],
    "positron": ["hazma/spectra/_positron/data/*.csv"],
    "neutrino": ["hazma/spectra/_neutrino/data/*.csv"],
}


def number(s):
    try:
        return float(s)
    except ValueError:
        pass
    try:                                        # fractional exponents: 1e14.5
        a, b = s.lower().split("e")
        return float(a) * 10 ** float(b)
    except ValueError:
        return np.nan


def parse(path):
    with open(path) as f:
        rows = [[number(v) for v in r] for r in csv.reader(f) if r and not r[0].lstrip().startswith("#")]
    n = max(map(len, rows))
    a = np.array([r + [np.nan] * (n - len(r)) for r in rows])
    a = a[~np.all(np.isnan(a), axis=1)]
    return a


def files(group):
    return sorted(p for g in GROUPS[group] for p in build.REPO.glob(g))


def compare(rec, group):
    """Every bundled table of the group carries the published numbers, row by row."""
    ref = np.load(FILE)
    have = {str(p.relative_to(build.REPO)): p for p in files(group)}
    want = [k for k in ref.files if k in have or any(pathlib.PurePath(k).match(g) for g in GROUPS[group])]
    for k in want:
        if k not in have:                       # moved or dropped: whoever reads it is judged by the other monitors
            rec.count("tables gone")
            continue
        a, b = parse(have[k]), ref[k]
        if not rec.ok(a.shape == b.shape, "tables:shape", file=k, shape=a.shape, expected=b.shape):
            continue
        bad = np.argwhere(~((np.abs(a - b) <= 1e-6 * np.abs(b)) | (np.isnan(a) & np.isnan(b))))
        rec.ok(not len(bad), "tables:values", file=k, cells=bad[:3].tolist(), found=[float(a[tuple(c)]) for c in bad[:3]], expected=[float(b[tuple(c)]) for c in bad[:3]])
        rec.count("table cells", int(a.size))
        rec.seen(("table", k))
    rec.count("tables", len(want))


def record():
    out = {}
    for g in GROUPS:
        for p in files(g):
            a = parse(p)
            out[str(p.relative_to(build.REPO))] = a.astype(np.float32) if np.all((np.abs(a[np.isfinite(a) & (a != 0)]) < 1e38) & (np.abs(a[np.isfinite(a) & (a != 0)]) > 1e-37)) else a
    np.savez_compressed(FILE, **out)


if __name__ == "__main__":
    record()
