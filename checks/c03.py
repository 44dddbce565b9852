import itertools
from bounded import cppunits
DEADLINE = 40
def work(refuted):
    return itertools.chain(cppunits.contracts('c03', refuted), cppunits.work('c03'))


def deductive():
    from contracts import suites
    return suites.cpp('C03')
