import itertools
from bounded import cppunits
DEADLINE = 40
def work(refuted):
    return itertools.chain(cppunits.contracts('c05', refuted), cppunits.work('c05'))


def deductive():
    from contracts import suites
    return suites.cpp('C05')
