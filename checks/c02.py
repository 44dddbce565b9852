from bounded import pyunits
DEADLINE = 60
def work(refuted):
    return pyunits.work('c02', pairs=24)


def deductive():
    from contracts import suites
    return suites.runtime('enc', 'dec', 'attr')
