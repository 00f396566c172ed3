"""Access to helper functions of the package that are not part of its documented surface.

They are only driven directly to reach more states; if a later version moves or reshapes
them, the parts of a check that use them are left out (and counted as such), and the same
property is still decided through the finder."""
import importlib
import inspect


def helper(module, name, params):
    """the function, or None if it is not there with the parameters known here"""
    try:
        f = getattr(importlib.import_module(module), name)
        sig = list(inspect.signature(getattr(f, "py_func", f)).parameters)
    except (ImportError, AttributeError, TypeError, ValueError):
        return None
    return f if sig == list(params) else None
