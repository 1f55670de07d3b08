"""Shared helpers for the checks that run the aesolver package."""
import itertools

from . import build


def use(ctx):
    build.use(ctx, ['num', 'ld', 'disc', 'fnd'])
    import aesolver  # noqa: F401


def prod(**axes):
    """All dictionaries of a product of named axes."""
    keys = list(axes)
    for vals in itertools.product(*(axes[k] for k in keys)):
        yield dict(zip(keys, vals))


class Bag:
    """Plain object with the given attributes."""
    def __init__(self, **kw):
        self.__dict__.update(kw)
