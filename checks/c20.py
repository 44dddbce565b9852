import re

from bounded import frontunits
from contracts import suites

DEADLINE = 60
# of the contracts of the file processor, what this property needs: files do not influence each other
MINE = r'the search path is restored|other files keep|gives its result again|extraction|engine|outcome'


def deductive():
    return [o for o in suites.of('C20') if o.name.startswith(('prophyc.calc', 'prophyc.parsers')) or re.search(MINE, o.name)]


def work(refuted):
    return frontunits.work('c20')
