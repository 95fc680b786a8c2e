"""Writes MANIFEST.json: one entry per check in mc/props."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMPARED = ('exhaustive enumeration of documents and operations up to a bound, every answer compared with a reference model',
            'Every answer of the implementation equals that of the reference model on everything enumerated; trusts the model.')
DOCUMENT = ('explicit-state reference model of documents, explored exhaustively to a bound, every trace replayed on the implementation',
            'The implementation agrees with the reference model (verdict, error, complete content) on all enumerated documents; trusts the '
            'model, which was written from the documentation of the notation.')
N = {
    'P01': ('exhaustive enumeration of texts and documents up to a bound, executed on the implementation',
            'Every text and document within the stated bounds was read, and everything asked of it, with nothing but parse or validation '
            'errors. Trusts the harness\'s notion of what may be raised; a CPU time limit stands for "never ends". Chains and nestings '
            'of 2000 levels are recorded findings (recursion limit).'),
    'P02': ('explicit-state model of the notation, exhaustive conformance of the implementation on all lines up to a bound',
            'The implementation agrees with an independently written reference tokenizer on all enumerated lines.'),
    'P13': ('exhaustive enumeration of block combinations and their permutations on the implementation',
            'All permutations of all combinations of the blocks give the same content; also compared with the reference model.'),
    'P15': ('exhaustive enumeration of documents, setting histories and chains of calls, compared with a reference model', COMPARED[1]),
    'P16': ('breadth-first search over touched states with the real operations, compared with a reference model in every state',
            'Histories are merged when the model says the same elements are touched; below the stated length none are merged. Trusts the '
            'model of what touches what.'),
    'P17': ('exhaustive enumeration of operation sequences per element, compared with a state machine model', COMPARED[1]),
    'P18': ('exhaustive enumeration of request histories; differential against a fresh document',
            'Every answer after every enumerated history equals that of a fresh document.'),
    'P25': ('exhaustive enumeration of messages, languages, arguments and documents, compared with the catalogs',
            'The catalogs in the check are a copy of the official ones, taken when the check was written.'),
    'P27': ('stateless model checking: all interleavings of requests, and all thread schedules with bounded preemptions under a '
            'controlled scheduler',
            'Scheduling points are the lines (one preemption) and calls (two preemptions) of the library; preemptions within a line are '
            'not explored. Every thread\'s answers equal those of running alone.'),
    'P28': ('exhaustive enumeration of documents and rewritings up to a bound, both executed on the implementation and compared',
            'Every rewriting that means nothing, at every place of every enumerated document, left the content unchanged. Trusts the '
            'harness\'s notion of what means nothing.'),
}
N['P29'] = ('exhaustive enumeration of families of documents and of repeated requests, with the steps of the implementation counted '
            'deterministically in each execution',
            'Between n, 2n and 4n repetitions (n = 6) the steps grow no faster than the content, for every enumerated family; what grows '
            'faster only beyond these sizes, or inside functions of the interpreter, is not seen. For repeated pieces of lines (120 '
            'characters) only a limit of 3 s of processor time, a thousand times what is taken, separates exponential from polynomial.')
for i in range(3, 13):
    N.setdefault(f'P{i:02}', DOCUMENT)
for i in (14, 19, 20, 21, 26):
    N[f'P{i:02}'] = COMPARED
for i in (22, 23, 24):
    N[f'P{i:02}'] = ('exhaustive enumeration of documents and errors, every report compared with a reference model',
                     'The report of every error of every enumerated document is as the reference model says; the layout itself is only '
                     'fixed where the statement fixes it.')

for name, what in (('P30', 'documents'), ('P31', 'documents'), ('P32', 'documents, queries and histories'), ('P33', 'documents and errors'),
                   ('P34', 'documents, positions and interleavings'), ('P35', 'request histories and touched states')):
    N[name] = (f'exhaustive enumeration of {what} up to a bound, executed on the JavaScript library and compared with the reference model',
               'The spaces and reference models of the checks of the Python library, driven through a bridge, in the quick tier cut down to '
               '40000 documents per space. Trusts the models and the bridge. Characters outside the BMP are left out.')

N['P36'] = ('exhaustive enumeration of documents and requests up to a bound, executed on both implementations and compared',
            'Both libraries gave the same answers to everything on everything enumerated, so neither a model nor its interpretation is '
            'trusted, only the bridge. Layout of reports that legitimately differs (markup, colours) and characters outside the BMP are left out.')

N['P37'] = (N['P29'][0].replace('of the implementation', 'of the JavaScript library'),
            N['P29'][1] + ' A step is here a character of the source of the library that is gone through, as V8 counts it without optimization.')

REASON = {}

ids = [json.loads(line)['id'] for line in open(os.path.join(ROOT, 'properties.jsonl'))]
checks = [{'property': k, 'quick_cmd': f'python3 run.py {k}', 'thorough_cmd': f'python3 run.py {k} --thorough',
           'technique': N[k][0], 'level': 'model_checking', 'level_note': N[k][1]}
          for k in sorted(N) if k in ids and os.path.exists(os.path.join(ROOT, 'mc', 'props', f'{k}.py'))]
have = {check['property'] for check in checks}
manifest = {
    'version': 1, 'setup_cmd': 'python3 -c "import mc.sut" && VERIF_LANGUAGE=js python3 -c "import mc.sut"', 'checks': checks,
    'not_applicable': [{'property': i, 'reason': REASON.get(i, 'its check is still being built')} for i in ids if i not in have],
    'notes': 'No hooks: all checks use the public interfaces of the libraries in /repo/python and /repo/javascript. The tier is chosen by VERIF_TIER or '
             '--thorough. python3 run.py <id> --replay evidence/replays/<id>.json replays a violation.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as file:
    json.dump(manifest, file, indent=1)
    file.write('\n')
