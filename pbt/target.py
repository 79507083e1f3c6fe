"""Access to the code under test."""
import importlib
import sys
import types

from .core import REPO


def load(name):
    """Import gcs.<name>.  If the package itself cannot be imported (its
    __init__ only computes the version, see the V properties), import the
    module without it.
    """
    try:
        return importlib.import_module('gcs.' + name)
    except Exception:
        for key in [k for k in sys.modules if k == 'gcs' or k.startswith('gcs.')]:
            del sys.modules[key]
        package = types.ModuleType('gcs')
        package.__path__ = [REPO + '/gcs']
        sys.modules['gcs'] = package
        return importlib.import_module('gcs.' + name)


slice_tools = load('slice_tools')
storage = load('storage')
