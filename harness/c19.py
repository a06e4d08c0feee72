"""C19: supply current of every segment."""
from .drive import *
from .drive import BOUNDS

WANT = ('isup',)
RESET = ()


def cases(tier):
    return all_cases(tier, WANT, RESET)
