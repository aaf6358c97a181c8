"""The documented robot data set."""
import numpy as np
from scipy import io


def fields(path, descr):
    data = io.loadmat(path)
    y = data["y"].T
    z = np.zeros((501, 2))
    z[1:] = y
    vf = np.asarray([data["Vfilt"][0][t] for t in range(501)])
    vs = np.asarray([data["Vsmooth"][0][t] for t in range(501)])
    return {
        "n_timesteps": 501,
        "observations": z,
        "states": data["x"].T,
        "transition_matrix": data["A"],
        "transition_offsets": data["b"].T,
        "observation_matrix": data["C"],
        "observation_offset": data["d"][:, 0],
        "initial_transition_covariance": 10 * np.eye(5),
        "initial_observation_covariance": 10 * np.eye(2),
        "transition_covariance": data["Q"],
        "observation_covariance": data["R"],
        "initial_state_mean": data["x0"][:, 0],
        "initial_state_covariance": data["P_0"],
        "filtered_state_means": data["xfilt"].T,
        "filtered_state_covariances": vf,
        "loglikelihoods": data["ll"][0],
        "smoothed_state_means": data["xsmooth"].T,
        "smoothed_state_covariances": vs,
        "DESCR": open(descr).read(),
    }


def mask():
    m = np.zeros((501, 2))
    m[0] = 1
    return m
