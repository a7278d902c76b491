"""Import hazma's Python from /repo and its native modules from /verif/.build."""

from __future__ import annotations

import importlib.abc
import importlib.machinery
import importlib.util
import sys
import sysconfig

from . import build


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, core, cy):
        self.core = core
        self.cy = cy
        self.ext = sysconfig.get_config_var("EXT_SUFFIX")

    def find_spec(self, name, path=None, target=None):
        if not name.startswith("hazma."):
            return None
        if name == "hazma._core":
            f = self.core / "_core.abi3.so"
        else:
            f = self.cy / (name.replace(".", "/") + self.ext)
            if not f.exists():
                return None
        loader = importlib.machinery.ExtensionFileLoader(name, str(f))
        return importlib.util.spec_from_file_location(name, str(f), loader=loader)


def install(sanitize=False):
    core, cy = build.build_all(sanitize)
    sys.dont_write_bytecode = True
    sys.path.insert(0, str(build.REPO))
    sys.meta_path.insert(0, _Finder(core, cy))
    return core, cy


def install_python_only():
    """For checks that touch only pure-Python modules (no native import)."""
    sys.dont_write_bytecode = True
    sys.path.insert(0, str(build.REPO))
