"""Calls the public functions that no other driver calls directly with arrays of all forms; recorded by guard_main.py.  What they
return is not judged here."""
import argparse
import json
import os
import random
import sys
import warnings

sys.path.insert(0, __file__.rsplit("/", 1)[0])
sys.path.insert(0, os.environ.get("PYSC_VERIF_REPO", "/repo"))

import at  # noqa: E402
import numpy as np  # noqa: E402

from pySC.core import beam, lattice_setting  # noqa: E402
from pySC.core.simulated_commissioning import SimulatedCommissioning  # noqa: E402
from pySC.correction import loco  # noqa: E402
from pySC.lattice_properties import response_model  # noqa: E402
from pySC.utils import at_wrapper, classdef_tools, sc_tools  # noqa: E402

import logging  # noqa: E402

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")


class Case:
    def __init__(self, seed):
        self.r = random.Random(seed)
        np.random.seed(seed % 2**31)

    def vec(self, n, ints=False):
        v = [self.r.randint(-4, 4) for _ in range(n)] if ints else [self.r.randint(-64, 64) / 64 for _ in range(n)]
        return np.array(v)

    def call(self, f, *a, **k):
        try:
            return f(*a, **k)
        except Exception:  # noqa: what is refused is judged elsewhere
            return None

    def ring(self):
        cells = []
        for k in range(4):
            cells += [at.Quadrupole("QF", 0.5, 0.7), at.Drift("D", 0.5), at.Multipole("C", 0.1, [0, 0], [0, 0]), at.Monitor("B"), at.Dipole("M", 1.0, np.pi / 4, 0.0),
                      at.Drift("D", 0.5), at.Quadrupole("QD", 0.5, -0.7), at.Monitor("B"), at.Sextupole("S", 0.1, 0.5), at.Drift("D", 0.5)]
        ring = at.Lattice(cells, name="ring", energy=1e9, periodicity=1)
        c = at.get_s_pos(ring, len(ring))[0]
        ring.append(at.RFCavity("CAV", 0.0, 2e5, 20 * 299792458.0 / c, 20, 1e9))
        return ring

    def tools(self):
        r = self.r
        o1, o2 = (np.sort(np.array([[r.randint(0, 20) for _ in range(n)] for _ in range(2)]), axis=0) for n in (r.randint(1, 4), r.randint(1, 4)))
        self.call(classdef_tools.update_double_ordinates, o1, o2)
        self.call(classdef_tools.intersect, [1, 2, 3], [2, 3, 4])
        a = self.vec(r.randint(1, 4))
        for cut in (2, 0.5):
            self.call(classdef_tools.randn_cutoff, a, cut)
            self.call(classdef_tools.randn_cutoff, [a, 1.5], cut)
            self.call(classdef_tools.randn_cutoff, 0.5, cut)
        self.call(classdef_tools.add_padded, a, self.vec(r.randint(1, 4)))
        ords = self.vec(3, True)
        for m in ("abs", "rel", "add", "none"):
            for v in (self.vec(3), self.vec(3, True), self.vec(3).tolist(), self.vec(1), 0.5, self.vec(2)):
                self.call(classdef_tools.check_input_and_setpoints, m, ords, v)
                self.call(classdef_tools.check_input_and_setpoints, m, ords.tolist(), v)
        m = self.vec(12).reshape(4, 3)
        for v in (m, m.T, np.asfortranarray(m), m[:, ::-1]):
            self.call(sc_tools.pinv, v, num_removed=r.randint(0, 2), alpha=r.choice([0, 0.5]), damping=r.choice([1, 0.5]))
        self.call(sc_tools.randnc, 2, (3, 2))
        self.call(sc_tools.rotation, self.vec(3))
        self.call(sc_tools.rotation, self.vec(3).tolist())

    def fits(self):
        r = self.r
        nq, nb, nc = 3, 4, 2
        J = self.vec(nq * nb * nc).reshape(nq, nb, nc)
        d = self.vec(nb * nc).reshape(nb, nc)
        for w in (1, np.ones(nc)):
            self.call(loco.objective, self.vec(nq), d, J, w)
        for w in (1, np.diag(np.ones(nc)), np.diag(np.abs(self.vec(nc)) + 1)):
            self.call(loco.get_inverse, J, self.vec(nq).reshape(nq, 1), r.randint(1, nq), w, LM_lambda=r.choice([0, 0.5]))
        om, od, g = self.vec(nb * nc).reshape(nb, nc), self.vec(nb * nc).reshape(nb, nc), self.vec(nq)
        for inc in (["quads"], ["quads", "cor", "bpm"]):
            self.call(loco.loco_correction_ng, g, om, od, J, [nq, 0, 0], inc, 2, np.diag(np.ones(nc)))
            self.call(loco.loco_correction_lm, g, om, od, J, [nq, 0, 0], inc, weights=r.choice([1, np.ones(nc)]), verbose=0)
        self.call(loco.select_equally_spaced_elements, np.arange(20), 4)

    def corrections(self):
        r = self.r
        sc = SimulatedCommissioning(self.ring())
        q = np.array([k for k, e in enumerate(sc.RING) if e.FamName in ("QF", "QD", "S")])
        sc.register_magnets(q)
        for method in ("abs", "rel", "add"):
            pick = np.array(sorted(r.sample(q.tolist(), 4)))
            for skew, order in ((False, 1), (True, 1), (False, 2)):
                self.call(loco.set_correction, sc, self.vec(4) / 16, pick, skewness=skew, order=order, method=method, dipole_compensation=False)
                self.call(loco.set_correction, sc, self.vec(2) / 16, [pick[:2], pick[2:]], individuals=False, skewness=skew, order=order, method=method,
                          dipole_compensation=False)
                self.call(loco.set_correction, sc, (self.vec(4) / 16).tolist(), pick.tolist(), skewness=skew, order=order, method=method)

    def optics(self):
        ring = self.ring()
        bpms = np.array([k for k, e in enumerate(ring) if e.FamName == "B"])
        z = np.array([1e-4, 0, 1e-4, 0, 0, 0])
        beams = np.asfortranarray(np.tile(z, (3, 1)).T)
        for x in (z, beams, np.tile(z, (3, 1)).T, z.tolist()):
            self.call(at_wrapper.lattice_track, ring, x, 2, bpms)
            self.call(response_model.orbpass, ring, x, 1, bpms)
        self.call(response_model.orbpass, ring, np.zeros(6), 1, bpms)
        self.call(at_wrapper.findorbit6, ring, bpms)
        self.call(at_wrapper.findorbit6, ring, bpms, guess=z)
        self.call(at_wrapper.findorbit4, ring, 0.0, bpms)
        self.call(at_wrapper.findspos, ring)
        self.call(at_wrapper.atgetfieldvalues, ring, bpms, "Length")
        self.call(at_wrapper.atgetfieldvalues, ring, np.array([0]), "PolynomB", 1)
        self.call(lattice_setting.switch_rf, ring, bpms, True)
        self.call(lattice_setting.switch_rf, ring, np.array([len(ring) - 1]), False)
        self.call(at_wrapper.atlinopt, ring, 0.0, bpms)
        o = self.call(at_wrapper.twissline, ring, 0.0, bpms)
        sc = SimulatedCommissioning(ring)
        sc.register_bpms(bpms)
        cm = [np.array([k for k, e in enumerate(ring) if e.FamName == "C"])] * 2
        q = np.array([k for k, e in enumerate(ring) if e.FamName in ("QF", "QD")])
        sc.register_magnets(cm[0], HCM=1., VCM=1.)
        sc.register_magnets(q)
        self.call(beam.generate_bunches, sc, nshots=2)
        for k in range(2):
            self.call(beam.bpm_reading, sc, bpms[:self.r.randint(1, 8)])
        e = self.call(at.get_optics, ring, bpms)
        if e is not None:
            self.call(loco.model_beta_beat, ring, bpms, e[2], False)
        self.call(loco.measure_closed_orbit_response_matrix, sc, bpms, [c[:2] for c in cm])
        self.call(response_model.SCgetModelRM, sc, bpms, [c[:2] for c in cm], Z0=z, nTurns=2)
        self.call(response_model.SCgetModelRM, sc, bpms, [c[:2].tolist() for c in cm], trackMode="ORB", Z0=z)
        return o


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("--out")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--n", type=int, default=4)
    a = ap.parse_args()
    for k in range(a.n):
        c = Case(a.seed * 7919 + k)
        c.tools()
        c.fits()
        c.corrections()
        c.optics()
    with open(a.out, "w") as fh:
        json.dump(dict(traces=[]), fh)
