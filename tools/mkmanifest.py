"""Writes MANIFEST.json from the checks present."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NOTE = {
 'C01': 'Seeded search over task assignments, start and finish orders of the simulated worker pool and over settings; serial run as reference.',
 'C02': 'Seeded search over histories of save, continue, mismatched continue and interrupt; reference: the checkpoint contents before.',
 'C03': 'One fault (crash, torn or short write, full disk, I/O error, descriptor exhaustion, interrupt) at a sampled file operation or step; reference: checkpoints of undisturbed runs.',
 'C04': 'Scripted autocorrelation times drive the real run; an independent state machine predicts every decision and record.',
 'C05': 'Row-by-row recomputation in a separate posterior, multiset comparison with everything the samplers yielded, under sampled worker schedules, resumes and backend results.',
 'C06': 'Every wall-clock reading comes from a seeded script (frozen, coarse, backwards, leaping); reference: the same run under a regular clock.',
 'C07': 'Four single faults per command history, each at a sampled file operation; references: the directory before the command and after an undisturbed run.',
 'C08': 'Sampled interleavings of the file operations of two to four commands, with each command alone as the reference.',
 'C09': 'Histories of commands, some of them killed or failing, against a small executable model of prerequisites, records and data flow; derived samples and quantiles recomputed.',
 'C10': 'Kills, failures and disk errors at sampled operations of runs over existing results; references: the file before and after an undisturbed run.',
 'C11': 'Histories of dying runs with every backend stub, ending in a continued run; the backends record what they were given.',
 'C12': 'Concurrent, failing and interrupted MultiNest runs over a directory of files of the user; every file operation is attributed to its run.',
 'C13': 'Histories before the save, a second process that loads, and one fault per save; reference: the posterior in memory.',
 'C14': 'Histories of evaluations with injected solver failures; reference: a fresh posterior.',
 'C15': 'A scripted compiler that succeeds, fails, is missing, is killed or hangs, plus disk errors; the directory tree before is the reference.',
 'C16': 'The extension fails to load in eight ways, at start-up, in later processes, in workers or now and then; reference: the compiled solver.',
 'C18': 'Histories of analyses, successful and failing, in one process; reference: the same analysis in a fresh process.',
 'C19': 'Edits under scripted time stamps, torn caches and kills between loads; reference: the text on disk executed in a fresh process.',
 'C24': 'Histories with failing and interrupted evaluations; every evaluation is recorded and the fitted posterior re-evaluated on a copy taken before.',
 'C27': 'Faults at sampled file operations of plot commands after sampled histories; figures compared byte by byte with undisturbed ones, and what is drawn with the recorded results.',
 'C28': 'Faults at sampled file operations of table commands after sampled histories; every row of every table, and of the document of the report, compared with the recorded samples, data, posterior and statistics.',
 'C29': 'Histories of comparisons, fits and flag changes with failing and interrupted evaluations; every fit of a comparison is recorded and compared with the models enumerated from the given posterior; the last one is repeated in a fresh process.',
 'C17': 'Failures and interrupts at sampled evaluations, steps, pool waits and terminal writes, followed by a comparison of the next run with a fresh process.',
}
NOTE.update(json.load(open(os.path.join(here, 'tools', 'notes.json'))) if os.path.exists(os.path.join(here, 'tools', 'notes.json')) else {})
NA = {
 'C20': 'Pure conversion of its argument: no schedule, clock, fault, I/O or history for a simulator to control; sampling inputs would be property testing under another name.',
 'C21': 'Pure numerical function of elements and times; nothing to schedule or to fail. (That losing the compiled solver changes nothing is decided as C16.)',
 'C22': 'Pure formula of data and parameters. (That its value does not depend on evaluation history or solver failures is decided as C14.)',
 'C23': 'Pure densities and transforms of one argument.',
 'C25': 'Pure formulae of the chains. (How their results steer a run is decided as C04.)',
 'C26': 'Pure rounding of numbers.',
}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(here, 'checks', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd='python3 run.py %s --tier quick' % i, thorough_cmd='python3 run.py %s --tier thorough' % i,
                           technique='deterministic simulation with fault injection, seeded schedule and fault search', level='exploration', level_note=NOTE.get(i, '')))
    elif i in NA:
        na.append(dict(property=i, reason=NA[i]))
    else:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='python3 run.py --setup', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
