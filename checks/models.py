"""Model builders shared by the checks (public API of the repository only)."""
import numpy as np
from hypothesis import strategies as st
import gen
from tight_binding_redweasel.bandstructure import BandStructureModel
from tight_binding_redweasel.tight_binding_asym import AsymTightBindingModel, HermitianFourierSeries
from tight_binding_redweasel.symmetry import Symmetry

LAYOUTS = [("asym", None, None)] + [(inv, cr, ex) for inv in ("none", "inv") for cr in (False, True) for ex in (False, True)]


@st.composite
def layout(draw, asym=True, inv=True):
    ls = [l for l in LAYOUTS if (asym or l[0] != "asym") and (inv or l[0] != "inv")]
    return list(draw(st.sampled_from(ls)))


def build(lay, nb, H):
    """a model with couplings H at lattice vectors nb in storage layout lay; lay 'inv' stores Hermitian couplings only"""
    kind, cr, ex = lay
    nb = np.array(nb, dtype=float)
    H = np.array(H, dtype=complex)
    if kind == "asym":
        return AsymTightBindingModel(HermitianFourierSeries(nb, H))
    dim = nb.shape[1]
    sym = Symmetry.none(dim) if kind == "none" else Symmetry.inv(dim)
    m = BandStructureModel.init_tight_binding(sym, nb, H.shape[1], cos_reduced=cr, exp=ex)
    m.set_params_complex(H)
    return m


def restrict(lay, H):
    """the couplings the layout can represent (Hermitian ones for the cosine layouts of inversion symmetry)"""
    return gen.herm(H) if lay[0] == "inv" else H


def hk(model, k):
    return model.H.f(k) if hasattr(model, "H") else model.f(k)


def dhk(model, k):
    return model.H.df(k) if hasattr(model, "H") else model.df(k)


def ddhk(model, k):
    return model.H.ddf(k) if hasattr(model, "H") else model.ddf(k)


def neighbors_of(model):
    return model.H.neighbors if hasattr(model, "H") else model.neighbors


def pd_series(nb, c, b):
    """positive definite overlap series: identity plus small k-dependent part"""
    S = gen.dec_complex(c, (len(nb), b, b))
    S[0] = gen.herm(S[0])
    n = np.sum(np.linalg.norm(S, axis=(1, 2)) * 2) + 1e-9
    S = S * (0.6 / n)
    S[0] = S[0] + np.eye(b)
    return S
