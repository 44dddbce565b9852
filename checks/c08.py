from bounded import layoutunits
from contracts import suites

DEADLINE = 45


def deductive():
    # the emitter turns the paddings of the model into declarations; the paddings themselves are those of C04
    return suites.of('C08') + suites.of('C04', ('sizes of struct members and structs', 'sizes of unions', 'sizes of empty structs',
                                                'layout of model members', 'blocks and paddings'))


def work(refuted):
    return layoutunits.workraw('c08')
