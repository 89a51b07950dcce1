"""Regenerates /verif/MANIFEST.json from the checks which exist."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'abstract interpretation of the source'
TECH = {
 'C04': AI + ' over ordinal (order-type) domains: every pair of last and new item',
 'C05': AI + ': every list mutator, position and ordering',
 'C06': AI + ': the heap after every raising path is compared with the one before',
 'C08': AI + ' over exact ordinals: every ordering of items, bounds and positions',
 'C09': AI + ': every view, position and interleaving of iterations',
 'C01': AI + ': every object reachable from the arguments is compared before and after, for every operation, transformation and series method',
 'C02': AI + ': no mutable object reachable both from the source and from the result',
 'C03': AI + ': identity of the result, of the items and of the heap after the call',
 'C27': 'definite assignment dataflow with correlated conditions, and resolution of names, attributes, call signatures and format placeholders over the class hierarchy',
 'C26': 'progress analysis of loops: must-pass-through dataflow from the head of each loop back to it, over the variables of its exits',
 'C25': AI + ' with provenance of data indexes and time zones',
 'C31': AI + ' with value numbering (rational functions in normal form) of the values against the mathematical definition',
 'C32': AI + ' with constant propagation of times (calendar and time zones included) and value numbering of the values, against an independent definition of the weights',
 'C34': AI + ' with information flow: the labels each value depends on, in its data and in the branches taken',
 'C35': AI + ' with value numbering: in place and not in place give the same values',
 'C22': AI + ' with a modelled file system: what is written is the exact text (a token for each number), parsed back by the reader, and compared item by item',
 'C23': AI + ' with a modelled file system and every possible exception: the order of refusals and of effects on files',
 'C24': AI + ' with a modelled file system, on every kind of malformed line in every position, with skipping on and off',
 'C12': AI + ' with a modelled file system and value numbering: a model and its loaded copy do the same, for every bundled model',
 'C13': AI + ' with a modelled file system and every possible exception: effects on files and heap of the model around a save',
 'C15': AI + ' with value numbering and constant propagation of times: every item of the reconstructed series against its source, for every gap',
 'C17': AI + ' with value numbering: every metric as an expression of the actual and predicted values, against its definition',
 'C18': AI + ' with provenance of values: what each prediction has been given, for every evaluation',
 'C14': AI + ' with value numbering: what each fit, evaluation and index depends on, for every position and amount of data loss',
 'C16': AI + ' with value numbering, in chosen orders of the errors: every anomaly index against its definition',
 'C37': AI + ' with exact indexes: the events marked against their definition, for every pattern of anomalous elements',
 'C20': AI + ' with constant propagation and value numbering: what is given as zero against its definition, or against the same away from zero',
 'C28': 'taint analysis: ' + AI + ' of the texts given by the user, to the commands run by a shell',
 'C19': AI + ': the whole heap (operations, models, classes, modules, default arguments) is compared before and after every call',
 'C30': AI + ', telling errors raised on purpose from those of the interpreter, for every kind of unsupported input',
 'C29': AI + ' of sibling classes on the same cases: equality, data arguments, time zones',
 'C21': 'effect analysis: ' + AI + ' with the order of effects on global state in each path, and a call graph from the statements with such effects to what asks for them',
 'C10': AI + ' of every model method, for every bundled model: what is refused, and that nothing is left behind',
 'C11': AI + ', with every possible exception of the calls of fit: the heap of the model after it',
 'C07': AI + ': exact ordinal differences through histories of changes and reads',
}
NOTE = ('Decided on the current source by an abstract interpreter for the subset of Python used here (tsa/), without running it: '
        'obligations are enumerated over the scenarios of the check, what cannot be analysed is counted as undecided in the evidence. '
        'Assumes the modelled semantics of the Python built-ins and of the libraries in tsa/models.py.')
NA = {
 'C33': 'statistical accuracy over unbounded signals: there is no static specification to check against',
}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'checks', i.lower() + '.py')) and i in TECH:
        checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='python3 check.py ' + i + ' --thorough', technique=TECH[i], level='other', level_note=NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check for it yet')))
m = dict(version=1, setup_cmd='python3 -c "import sys; assert sys.version_info >= (3, 9)"', checks=checks, not_applicable=na,
         notes='Checks read the source under /repo (nothing of it is imported or run) and need only python3. See DESIGN.md.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
