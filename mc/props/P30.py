from ..javascript import combine

RULE, ASSUMPTIONS, MIN_OUTCOMES, run, replay = combine('P02', 'P03', 'P04', 'P05', 'P06', 'P07', 'P08', 'P28')
