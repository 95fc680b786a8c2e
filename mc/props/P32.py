from ..javascript import combine

RULE, ASSUMPTIONS, MIN_OUTCOMES, run, replay = combine('P14', 'P15', 'P17', 'P19')
