import re

from bounded import frontunits
from contracts import suites

DEADLINE = 60


def deductive():
    # of the constants only their range is a rule of this property
    return [o for o in suites.of('C12') if 'definition and use' not in o.name or re.search('range|reachable', o.name)]


def work(refuted):
    return frontunits.work('c12')
