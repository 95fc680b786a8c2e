from ..javascript import combine

RULE, ASSUMPTIONS, MIN_OUTCOMES, run, replay = combine('P20', 'P26', 'P27')
