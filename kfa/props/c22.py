import hashlib
import os
from ..rules import *
from ..values import *
from .. import npmodel
from ..loader import REPO

RULE = "each documented field of load_robot's result, as attribute and as item, has the value graph of the recorded array with time on its first axis; the observation mask covers exactly the first row; the files named exist and hold the recorded arrays"
EXPLANATION = "load_robot is interpreted abstractly with the fields of the data file as opaque arrays of the recorded shapes; its result and its mask are compared field by field with a specification written from the documentation."

MAT = "pykalman/datasets/data/robot.mat"
DESCR = "pykalman/datasets/descr/robot.rst"
KEYS = ["n_timesteps", "observations", "states", "transition_matrix", "transition_offsets", "observation_matrix", "observation_offset",
        "initial_transition_covariance", "initial_observation_covariance", "transition_covariance", "observation_covariance", "initial_state_mean",
        "initial_state_covariance", "filtered_state_means", "filtered_state_covariances", "loglikelihoods", "smoothed_state_means",
        "smoothed_state_covariances", "DESCR"]
# float64 contents of the recorded arrays
DIGEST = "43ae4e3401483b18a7d65889390b9720860eebb0491a5e1f09a10a7a2b601079"


def rank(it, v):
    return len(it.read(v).shape) if isinstance(v, Arr) else 0


def fields(how, entry):
    def code(c):
        r = c.call(c.cls(entry))
        return {k: c.get(r, k) if how == "attribute" else c.it.getitem(r, k) for k in KEYS}

    def spec(c):
        r = c.spec("robot.fields", MAT, DESCR)
        return {k: c.it.getitem(r, k) for k in KEYS}
    return Compare(f"{len(KEYS)} fields as {how}", {}, code, spec)


def masked(entry):
    def code(c):
        r = c.call(c.cls(entry))
        z = c.get(r, "observations")
        is_ma = isinstance(z, Arr) and c.it.read(z).mask is not None
        return {"is a masked array": is_ma, "mask": npmodel.ma_getmaskarray(c.it, z)}

    def spec(c):
        return {"is a masked array": True, "mask": c.spec("robot.mask")}
    return Compare("mask of the observations", {}, code, spec)


def recorded():
    import numpy as np
    import scipy.io
    p = os.path.join(REPO, MAT)
    if not os.path.isfile(p):
        return [f"{MAT} is missing"], 1, []
    d = digest(scipy.io.loadmat(p))
    bad = [] if d == DIGEST else [f"{MAT} no longer holds the recorded arrays"]
    if not os.path.isfile(os.path.join(REPO, DESCR)):
        bad.append(f"{DESCR} is missing")
    return bad, 2, []


def digest(data):
    import numpy as np
    h = hashlib.sha256()
    for k in sorted(data):
        if k.startswith("__"):
            continue
        v = data[k]
        flat = [v] if v.dtype != object else list(v.ravel())
        h.update(f"{k}{v.shape}".encode())
        for x in flat:
            h.update(np.ascontiguousarray(x, dtype="<f8").tobytes())
    return h.hexdigest()


def obligations(tier):
    out = [Source("recorded files", recorded, 2), masked("pykalman.datasets.load_robot")]
    return out + [fields("attribute", "pykalman.datasets.load_robot"), fields("item", "pykalman.datasets.load_robot")]
