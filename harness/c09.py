"""C09: reported phase/dq/angle consistency."""
from .drive import *
from .drive import BOUNDS

WANT = ('eps','consist')
RESET = ('eps','consist')


def cases(tier):
    return all_cases(tier, WANT, RESET, motors=("pmsm", "synrm", "eesm", "scim", "dfim"))
