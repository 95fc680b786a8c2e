"""Terminal reports show the same as text reports, and leave no style switched on."""

from ..reports import explore, replay_for

RULE = ('every document of the stated line forms: the report of the error it is rejected with, or else of every error that can be '
        'had from it, as read back from the report; non-trivial: the document has several lines')
MIN_OUTCOMES = 12
ASSUMPTIONS = ['which members of a cycle of copies are marked besides the copy itself is left open']

replay = replay_for('terminal')


def run(session):
    explore(session, 'terminal')
