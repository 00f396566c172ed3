"""User-defined constraint that observes and steers the iterations.

User-defined constraints are a documented extension point: the finder calls `initialize`,
`prepare` and `evolve` of the compiled object.  The compiled object shares the arrays of
the `Spy` that created it, so the explorer can read what every iteration saw and script
 - the volume derivative of every compartment at every iteration (this decides which
   compartments die, so kill patterns are enumerated rather than sampled),
 - the residue reported at every iteration (this decides when a run may converge),
without touching any internals of the package.
"""
import numpy as np
from numba import float64, int64
from numba.experimental import jitclass

import flory
from flory.constraint.base import ConstraintBaseCompiled


@jitclass(
    [
        ("_num_feat", int64),
        ("_potential", float64[:, ::1]),
        ("_volume_derivative", float64[::1]),
        ("cnt", int64[::1]),
        ("kicks", float64[:, ::1]),
        ("residues", float64[::1]),
        ("rec_phi", float64[:, :, ::1]),
        ("rec_J", float64[:, ::1]),
        ("rec_mask", float64[:, ::1]),
        ("rec_step", float64[::1]),
    ]
)
class SpyCompiled(ConstraintBaseCompiled):
    def __init__(self, num_feat, cnt, kicks, residues, rec_phi, rec_J, rec_mask, rec_step):
        self._num_feat = num_feat
        self.cnt = cnt
        self.kicks = kicks
        self.residues = residues
        self.rec_phi = rec_phi
        self.rec_J = rec_J
        self.rec_mask = rec_mask
        self.rec_step = rec_step
        self._potential = np.zeros((num_feat, 1))
        self._volume_derivative = np.zeros((1,))

    @property
    def num_feat(self):
        return self._num_feat

    @property
    def potential(self):
        return self._potential

    @property
    def volume_derivative(self):
        return self._volume_derivative

    def initialize(self, num_part):
        self._potential = np.zeros((self._num_feat, num_part))
        self._volume_derivative = np.zeros((num_part,))
        self.cnt[2] += 1

    def prepare(self, phis_feat, Js, masks):
        t = self.cnt[0]
        if t < self.rec_J.shape[0]:
            self.rec_phi[t] = phis_feat
            self.rec_J[t] = Js
            self.rec_mask[t] = masks
        if t < self.kicks.shape[0]:
            self._volume_derivative = self.kicks[t] * masks
        else:
            self._volume_derivative = np.zeros_like(Js)
        self.cnt[0] += 1

    def evolve(self, step, masks):
        t = self.cnt[1]
        self.cnt[1] += 1
        if t < self.rec_step.shape[0]:
            self.rec_step[t] = step
        if t < self.residues.shape[0]:
            return self.residues[t]
        return 0.0


class Spy(flory.ConstraintBase):
    def __init__(self, num_feat, num_part, horizon=16):
        super().__init__(num_feat)
        self.num_part = num_part
        self.cnt = np.zeros(3, np.int64)
        self.kicks = np.zeros((horizon, num_part))
        self.residues = np.zeros(horizon)
        self.rec_phi = np.full((horizon, num_feat, num_part), np.nan)
        self.rec_J = np.full((horizon, num_part), np.nan)
        self.rec_mask = np.full((horizon, num_part), np.nan)
        self.rec_step = np.full(horizon, np.nan)

    def _compiled_impl(self):
        return SpyCompiled(
            self.num_feat, self.cnt, self.kicks, self.residues, self.rec_phi,
            self.rec_J, self.rec_mask, self.rec_step,
        )

    def restart(self, kicks=None, residues=None):
        self.cnt[:] = 0
        self.kicks[:] = 0
        self.residues[:] = 0
        for a in (self.rec_phi, self.rec_J, self.rec_mask, self.rec_step):
            a[:] = np.nan
        if kicks is not None:
            k = np.asarray(kicks, float)
            self.kicks[: len(k)] = k
        if residues is not None:
            r = np.asarray(residues, float)
            self.residues[: len(r)] = r

    @property
    def iterations(self):
        return int(self.cnt[0])
