"""C17: state normalisation and order."""
from .drive import *
from .drive import BOUNDS

WANT = ('state',)
RESET = ('state',)


def cases(tier):
    return all_cases(tier, WANT, RESET)
