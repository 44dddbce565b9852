import itertools
from bounded import cppunits
DEADLINE = 40
def work(refuted):
    return itertools.chain(cppunits.contracts('c07', refuted), cppunits.work('c07'))


def deductive():
    from contracts import suites
    return suites.cpp('C07')
