from bounded import frontunits
from contracts import suites

DEADLINE = 60


def deductive():
    return suites.of('C14')


def work(refuted):
    return frontunits.work('c14')
