from bounded import layoutunits
from contracts import suites
DEADLINE = 60
def work(refuted):
    return layoutunits.work04()


def deductive():
    return suites.of('C04') + suites.runtime('attr')
