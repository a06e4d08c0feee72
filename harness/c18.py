"""C18: segments, voltages and time of a step."""
from .drive import *
from .drive import BOUNDS

WANT = ('time','volt')
RESET = ('time',)


def cases(tier):
    return all_cases(tier, WANT, RESET)
