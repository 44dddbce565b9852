import itertools

from bounded import cppunits, pyunits
from contracts import suites

DEADLINE = 50


def deductive():
    return suites.of('C18')


def work(refuted):
    return itertools.chain(cppunits.contracts('c18', refuted), pyunits.work('c18', pairs=24), cppunits.work('c18'))
