"""State of the process that the package has no reason to change."""
import locale
import os
import warnings

import dask
import numpy as np

from .engine import ensure


class GlobalState:
    def __init__(self):
        self.state = self.now()

    @staticmethod
    def now():
        kind, keys, pos, has, cached = np.random.get_state()
        return {"error handling of numpy": np.geterr(), "random generator of numpy": (kind, keys.tobytes(), pos, has, cached), "working directory": os.getcwd(),
                "print options of numpy": np.get_printoptions(), "filters of warnings": list(warnings.filters), "options of dask": repr(dask.config.config),
                "environment": dict(os.environ), "locale": locale.setlocale(locale.LC_ALL), "umask": umask()}

    def check(self, what, again=None):
        """again: runs the operation once more"""
        now = self.now()
        if again and now["filters of warnings"] != self.state["filters of warnings"]:
            # modules may add filters when they are imported, once
            warnings.filters[:] = self.state["filters of warnings"]
            again()
            now = self.now()
        for k, v in self.state.items():
            ensure(now[k] == v, "%s changed the %s: %s, was %s", what, k, now[k], v)


def umask():
    old = os.umask(0o022)
    os.umask(old)
    return old
