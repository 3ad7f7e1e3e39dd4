"""Redirects the package's calibration data folder to a scratch one."""
import os
import shutil
from vf.core import REPO

REAL = os.path.join(REPO, "CHECLabPy", "calib", "data")


def calib_data(ctx, copy=True):
    """From now on (until the case ends) the data folder is a scratch copy"""
    import CHECLabPy.calib.data as module
    folder = ctx.path("calib-data")
    if copy:
        shutil.copytree(REAL, folder,
                        ignore=shutil.ignore_patterns("__pycache__"))
    else:
        os.makedirs(folder)
    old = module.__file__
    module.__file__ = os.path.join(folder, "__init__.py")

    def restore():
        module.__file__ = old

    ctx.cleanups.append(restore)
    return folder
