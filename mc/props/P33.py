from ..javascript import combine

RULE, ASSUMPTIONS, MIN_OUTCOMES, run, replay = combine('P01', 'P21', 'P22', 'P23', 'P24', 'P25')
