"""Scratch directories and HDF5 helpers for the loader checks."""
import contextlib
import os
import shutil
import tempfile

import numpy as np

LSUN = 3.828e33


@contextlib.contextmanager
def scratch(name="d"):
    """A fresh directory (whose last component is `name`) removed afterwards."""
    top = tempfile.mkdtemp(prefix="pbt-", dir=os.environ.get("PBT_TMP"))
    d = os.path.join(top, name)
    os.makedirs(d)
    try:
        yield d
    finally:
        shutil.rmtree(top, ignore_errors=True)


@contextlib.contextmanager
def environ(**kw):
    old = {k: os.environ.get(k) for k in kw}
    try:
        for k, v in kw.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        yield
    finally:
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


def write_h5(fn, **data):
    import h5py

    with h5py.File(fn, "w") as h:
        for k, v in data.items():
            if v is not None:
                h[k] = v


def spell(path, form, base=None):
    """The same location spelled differently: absolute, relative to the working directory, with redundant parts."""
    if form == "rel":
        return os.path.relpath(path)
    if form == "dots":
        return os.path.join(os.path.dirname(path), ".", os.path.basename(path))
    return path


FORMS = ("abs", "abs", "rel", "dots")


def ssp_arrays(seed, n_met, n_age, n_wave, n_line, f32=False):
    from .. import gen

    rng = lambda k, shp, lo, hi: gen.hashed(seed * 7 + k, shp, lo, hi)  # noqa: E731
    d = dict(
        ssp_lgmet=np.sort(rng(0, (n_met,), -5, -1)),
        ssp_lg_age_gyr=np.sort(rng(1, (n_age,), -4, 1.2)),
        ssp_wave=np.sort(10 ** rng(2, (n_wave,), 2, 6)),
        ssp_flux=10 ** rng(3, (n_met, n_age, n_wave), -70, 3),
    )
    if f32:
        d = {k: (v if k != "ssp_flux" else np.maximum(v, 1e-30)).astype("f4") for k, v in d.items()}
    if n_line:
        d["ssp_emline_wave"] = 10 ** rng(4, (n_line,), 2.9, 6)
        d["ssp_emline_luminosity"] = 10 ** rng(5, (n_met, n_age, n_line), -60, 2)
    return d
