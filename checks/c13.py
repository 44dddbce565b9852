import re

from bounded import frontunits
from contracts import suites

DEADLINE = 60
# of the contracts of the front end, what this property needs: nothing but designed errors leaves a function
MINE = r'raises |fails |terminates|no other error|errors are reported|escapes|extraction|engine|exception|outcome'


def deductive():
    return [o for o in suites.of('C13') if re.search(MINE, o.name)]


def work(refuted):
    return frontunits.work('c13')
