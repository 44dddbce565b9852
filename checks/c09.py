import itertools
from bounded import layoutunits
DEADLINE = 50
def work(refuted):
    return itertools.chain(layoutunits.contracts('c09', refuted), layoutunits.workraw('c09'))


def deductive():
    from contracts import suites
    return suites.of('C09')
