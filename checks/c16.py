from bounded import frontunits
from contracts import suites

DEADLINE = 60


def deductive():
    return suites.of('C16')


def work(refuted):
    return frontunits.work('c16')
