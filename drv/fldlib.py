"""Masks, bins and fields for the curved-sky drivers."""
import numpy as np
from rec import hx, ints, attempt, must, unit


def smooth_mask(rng, nside, kind):
    """masks of different characters, all with structure in theta and phi"""
    import healpy as hp
    n = 12 * nside**2
    if kind == "white":
        return rng.random(n)
    if kind == "binary":
        return (rng.random(n) < .6).astype(float)
    if kind == "signed":
        return rng.standard_normal(n)
    th, ph = hp.pix2ang(nside, np.arange(n))
    m = 1 + .5 * np.cos(th) + .4 * np.sin(th) * np.cos(ph + rng.uniform(0, 6)) + .3 * np.sin(th)**2 * np.sin(2 * ph + rng.uniform(0, 6))
    if kind == "cap":
        m = m * np.clip((np.cos(th) - rng.uniform(-.5, .5)) * 3, 0, 1)
    return m


MASKS = ["white", "binary", "signed", "smooth", "cap"]


def beam(rng, lmax):
    return np.exp(-np.arange(lmax + 1) * rng.uniform(0, .2)) * rng.uniform(.5, 2)


def catalog(rng, spin, lmax, lmax_mask, n=6, beam=None):
    import pymaster as nmt
    pos = np.array([np.arccos(rng.uniform(-1, 1, n)), rng.uniform(0, 2 * np.pi, n)])
    f = rng.standard_normal((2 if spin else 1, n))
    return must("NmtFieldCatalog", nmt.NmtFieldCatalog, pos, rng.uniform(.5, 2, n), f, lmax, lmax_mask=lmax_mask, spin=spin, beam=beam)


def linbins(lmax, nlb=2):
    import pymaster as nmt
    if lmax - 1 < nlb:
        return nmt.NmtBin(bpws=np.zeros(lmax + 1, int), ells=np.arange(lmax + 1), weights=np.ones(lmax + 1), lmax=lmax)
    return nmt.NmtBin.from_lmax_linear(lmax, nlb)


def matrix(w):
    return must("get_coupling_matrix", w.get_coupling_matrix)
