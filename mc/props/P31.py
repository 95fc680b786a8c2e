from ..javascript import combine

RULE, ASSUMPTIONS, MIN_OUTCOMES, run, replay = combine('P09', 'P10', 'P11', 'P12', 'P13')
