from bounded import apiunits
from contracts import suites

DEADLINE = 60


def deductive():
    return suites.of('C11')


def work(refuted):
    return apiunits.work('c11')
