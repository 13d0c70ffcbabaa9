"""
What a driver sees.  The same driver runs in two modes:

SymEnv   inputs are symbolic, the package is the instrumented copy, checks
         become solver obligations;
ConEnv   (module conc) inputs are the numbers of a witness, the package is the
         plain installed one, checks are evaluated in floating point.
"""
from __future__ import annotations


class CheckFailed(Exception):
    pass


class Unmodelled(BaseException):
    """The code asked a stand-in for something the stand-in does not have."""


class Stub:
    """Base of stand-ins: an attribute they lack is never an AttributeError of
    the code under check."""

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        raise Unmodelled(f"{type(self).__name__}.{name}")


class Result(Stub):
    """Bunch used for stubbed scipy results."""

    def __init__(self, **k):
        self.__dict__.update(k)

    def __getattr__(self, name):
        lazy = self.__dict__.get("lazy_" + name)
        if lazy is not None:
            self.__dict__[name] = r = lazy()
            return r
        return super().__getattr__(name)

    def __getitem__(self, name):
        return getattr(self, name)

    def get(self, name, default=None):
        return self.__dict__.get(name, default)
