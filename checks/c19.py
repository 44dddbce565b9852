import itertools
from bounded import cppunits, pyunits
DEADLINE = 40
def work(refuted):
    return itertools.chain(cppunits.contracts('c19', refuted), pyunits.work('c19', pairs=24), cppunits.work('c19'))


def deductive():
    from contracts import suites
    return suites.runtime('enc') + suites.cpp('C19')
