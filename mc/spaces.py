"""Spaces that several checks explore."""

import itertools
import string

PRINTABLE = string.digits + string.ascii_letters + string.punctuation + ' \t\r\x0b\x0c\xa0\u2003\u200bé'
BLANKS = ('', ' ', '  ', '\t', '\t ', '\xa0')


def rings(names, element, copies):
    """Every graph of copies among the names: each is an element of its own or a copy (in one of the ways) of any.

    Cycles of every length, with tails of every length, chains of every length in every order of lines."""
    choices = [None] + [(copy, name) for name in names for copy in copies]
    for targets in itertools.product(choices, repeat=len(names)):
        yield '\n'.join(element.format(name) if target is None else target[0].format(name, target[1]) for name, target in zip(names, targets))


def graphs(names, own, copies):
    """Every graph of copies among the names as in rings, where each is made in any of the given ways."""
    choices = [(form, '') for form in own] + [(copy, name) for name in names for copy in copies]
    for chosen in itertools.product(choices, repeat=len(names)):
        yield '\n'.join(form.format(name, target) for name, (form, target) in zip(names, chosen))


def edits(text, characters=PRINTABLE):
    """Every text that is one insertion, replacement or deletion of a character away."""
    found = {text}
    for at in range(len(text) + 1):
        for character in characters:
            found.add(text[:at] + character + text[at:])
            if at < len(text):
                found.add(text[:at] + character + text[at + 1:])
        if at < len(text):
            found.add(text[:at] + text[at + 1:])
    return sorted(found)


def spacings(parts, blanks=BLANKS):
    """The parts with every combination of blanks before, between and after them."""
    for chosen in itertools.product(blanks, repeat=len(parts) + 1):
        yield ''.join(blank + part for blank, part in zip(chosen, parts)) + chosen[-1]
