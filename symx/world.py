"""Imports /repo's modules: once unmodified (concrete world) or against the symbolic stand-ins (symbolic world)."""
import importlib
import os
import sys
import types

REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")


class World:
    def __init__(self):
        self.words = {}

    def begin_path(self, ctx):
        self.words = {}

    def end_path(self):
        self.words = {}


def _purge():
    for n in list(sys.modules):
        if n in ("magnopy", "wulfric") or n.startswith(("magnopy.", "wulfric.")):
            del sys.modules[n]


def _fill(w):
    import logging
    logging.getLogger("magnopy").setLevel(logging.CRITICAL + 10)
    m = importlib.import_module
    w.magnopy = m("magnopy")
    w.wulfric = m("wulfric")
    w.MatrixParameter = m("magnopy.spinham.parameter").MatrixParameter
    w.ham = m("magnopy.spinham.hamiltonian")
    w.SpinHamiltonian = w.ham.SpinHamiltonian
    w.energy = m("magnopy.spinham.energy")
    w.Energy = w.energy.Energy
    w.diag = m("magnopy.magnons.diagonalization")
    w.disp = m("magnopy.magnons.dispersion")
    w.geometry = m("magnopy.geometry")
    w.txt = m("magnopy.io.txt.internal")
    w.verify = m("magnopy.io.txt.verify")
    w.tb2j = m("magnopy.io.txt.tb2j")
    w.vampire = m("magnopy.io.txt.vampire")
    w.hdf5 = m("magnopy.io.hdf5.internal")
    w.io = m("magnopy.io")
    w.exceptions = m("magnopy.exceptions")
    w.si = m("magnopy.units.si")
    w.inside = m("magnopy.units.inside")
    for k, n in (("convert", "convert_tb2j"), ("minimize", "minimize_energy")):
        try:
            setattr(w, k, m("magnopy.score." + n))
        except Exception:
            setattr(w, k, None)
    w.Atom = w.wulfric.Atom
    w.Crystal = w.wulfric.Crystal
    w.files = sorted(os.path.relpath(mod.__file__, REPO_SRC) for n, mod in sys.modules.items()
                     if n.startswith("magnopy") and getattr(mod, "__file__", None))
    src = os.path.realpath(w.magnopy.__file__)
    if not src.startswith(os.path.realpath(REPO_SRC) + os.sep):
        raise SystemExit(f"magnopy was imported from {src}, not from {REPO_SRC}")
    return w


def _path():
    if REPO_SRC in sys.path:
        sys.path.remove(REPO_SRC)
    sys.path.insert(0, REPO_SRC)
    sys.dont_write_bytecode = True


def concrete_world():
    _path()
    import numpy
    w = World()
    w.np = numpy
    return _fill(w)


def symbolic_world():
    _path()
    vt = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    if vt not in sys.path:
        sys.path.append(vt)
    import numpy
    import numpy.linalg
    import math
    # third-party modules come in with the real numpy first
    import magnopy  # noqa
    for n in ("magnopy.spinham", "magnopy.magnons", "magnopy.io", "magnopy.magnons.dispersion", "magnopy.io.hdf5.internal"):
        importlib.import_module(n)
    import scipy.spatial.transform as sst
    import h5py
    from . import shim, loops
    _purge()
    npx, lin = shim.make_numpy()
    mth = shim.make_math()
    sstx = shim.Proxy("scipy.spatial.transform", sst, {"Rotation": shim.RotationShim})
    h5x = shim.Proxy("h5py", h5py, {"File": shim.H5File, "Group": shim.H5Group, "Dataset": shim.H5Dataset})
    saved = {n: sys.modules.get(n) for n in ("numpy", "numpy.linalg", "math", "scipy.spatial.transform", "h5py")}
    sys.modules.update({"numpy": npx, "numpy.linalg": lin, "math": mth, "scipy.spatial.transform": sstx, "h5py": h5x})
    w = World()
    try:
        w.np = npx
        _fill(w)
    finally:
        for n, m in saved.items():
            sys.modules[n] = m
    for n, m in list(sys.modules.items()):
        if n in ("magnopy", "wulfric") or n.startswith(("magnopy.", "wulfric.")):
            m.__dict__["float"] = shim.FloatShim
            m.__dict__["int"] = shim.IntShim
            if n.startswith("magnopy"):
                for k in ("len", "range", "enumerate", "zip", "sum"):
                    m.__dict__.setdefault(k, getattr(loops, k + "_"))
    w.h5store = shim.H5File.STORE
    w.shim = shim

    def begin(ctx):
        w.words = {}
        shim.H5File.STORE.clear()
        install_lazy(True)

    # imports executed inside functions see the stand-ins too
    def install_lazy(on):
        pass

    def end():
        w.words = {}
        shim.H5File.STORE.clear()
    w.begin_path = begin
    w.end_path = end

    def linalg_hook(name, *a, **kw):
        shim.unsupported(f"numpy.linalg.{name} of a symbolic matrix")
    w.linalg_hook = linalg_hook
    return w
