"""Motions that keep the centroidal momentum."""
import numpy as np
import pinocchio as pin


def still(model, data, q):
    """motions that keep the centroidal momentum: one per joint (base motion in the first six entries)"""
    A = pin.computeCentroidalMap(model, data, q)
    B = np.linalg.solve(A[:, :6], -A[:, 6:])
    return np.vstack([B, np.eye(model.nv - 6)]).T
