"""Text reports show exactly the lines that matter, as they are, marked and numbered."""

from ..reports import explore, replay_for

RULE = ('every document of the stated line forms: the report of the error it is rejected with, or else of every error that can be '
        'had from it, as read back from the report; non-trivial: the document has several lines')
MIN_OUTCOMES = 12
ASSUMPTIONS = ['which members of a cycle of copies are marked besides the copy itself is left open']

replay = replay_for('text')


def run(session):
    explore(session, 'text')
