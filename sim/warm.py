"""Import what the libraries import lazily, so that every forked run starts from the
same interpreter state."""
import io


def warm():
    import numpy as np
    import ase, ase.io, ase.io.formats
    from ase import Atoms
    import gzip, uuid, tempfile
    a = Atoms("AuCu", positions=[[0, 0, 0], [1, 1, 1]], cell=[3, 3, 3], pbc=True)
    import os, shutil
    d = tempfile.mkdtemp()
    try:
        for f in ("lammps-data", "vasp", "xyz", "extxyz", "cif"):
            p = os.path.join(d, "w." + f)
            try:
                ase.io.write(p, a, format=f)
                if f != "lammps-data":
                    ase.io.read(p, format=f)
            except Exception:
                pass
    finally:
        shutil.rmtree(d)
    np.loadtxt(["1 2 3"])
    np.linalg.inv(np.eye(3))
    np.histogram([1., 2.], bins=2)
