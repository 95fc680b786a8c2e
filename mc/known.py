"""Known findings: genuine defects that were recorded rather than repaired (/verif/known_findings.txt)."""

import json
import os

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.txt')


def findings(property_id):
    """Lines of the form: known: property=<id> case=<json> what=<text>"""
    result = []
    if not os.path.exists(PATH):
        return result
    with open(PATH) as file:
        for line in file:
            if not line.startswith('known: '):
                continue
            head, _, rest = line[len('known: '):].strip().partition(' case=')
            if head != f'property={property_id}':
                continue
            decoder = json.JSONDecoder()
            case, end = decoder.raw_decode(rest)
            result.append({'case': case, 'what': rest[end:].strip()})
    return result

