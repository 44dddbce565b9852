from bounded import apiunits
from contracts import suites

DEADLINE = 60


def deductive():
    return suites.of('C10') + suites.runtime('check')


def work(refuted):
    return apiunits.work('c10')
