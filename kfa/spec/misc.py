import numpy as np


def zeros(n):
    return np.zeros(n)


def eye(r, c):
    """Identity, rectangular when the dimensions differ."""
    return np.eye(r, c)


def same_state(state):
    return state


def state_plus_noise(state, noise):
    return state + noise
