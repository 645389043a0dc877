#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below: the checks and, for the rest, why there is none."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXPL = {  # property: (technique, level, note)
 'C01': ('execution of every generated diff on an explicit-state catalog simulator, for all pairs of bounded schema families', 'model_checking',
   'All pairs of the schema families; the simulator states what MySQL does with the statements and compares the final catalog with that of the target.'),
 'C02': ('execution of every generated diff, statement by statement, on an explicit-state catalog simulator that refuses what MySQL refuses', 'model_checking',
   'All pairs of the schema families and all prefixes of their statement sequences; the preconditions of the statements are those of the simulator.'),
 'C06': ('exhaustive enumeration of the accepted traces of the grammar machine, of API-built models and indentations, formatted and parsed again', 'model_checking',
   'All transitions of the grammar machine, catalog products and bounded API models; equality is that of the dumped models.'),
 'C07': ('explicit-state exploration of a reference grammar machine, every accepted trace parsed by the implementation and compared with the reference model', 'model_checking',
   'Every accepted trace of the bounded space gives exactly the reference model; the reference grammar and builder are trusted to be the supported language.'),
 'C08': ('exhaustive enumeration of bounded texts (bytes, tokens, truncations) run on the parser under a watchdog', 'model_checking',
   'Every byte string and token word up to the bound, every truncation of the traces; termination is judged with a time limit.'),
 'C09': ('explicit-state exploration of a reference grammar machine, error positions compared at each rejecting transition', 'model_checking',
   'Every rejecting transition of the machine in several contexts; the reference grammar decides which token is the first wrong one.'),
 'C10': ('exhaustive enumeration of layout variants at every token boundary of the traces of the grammar machine', 'model_checking',
   'One and two varied boundaries over a catalog of separators, all transitions of the grammar machine covered by the base texts.'),
 'C11': ('explicit-state exploration of a reference grammar machine, every rejecting transition replayed on the parser', 'model_checking',
   'All states and transitions of the grammar machine, all token words up to the bound, catalog products; the reference grammar is trusted to be the supported language.'),
 'C12': ('exhaustive enumeration of bounded API-built models, normalization compared with a reference normalizer', 'model_checking',
   'All column, index and table models over the stated value catalogs.'),
 'C13': ('exhaustive enumeration of API call sequences on the real objects, compared with a reference container model', 'model_checking',
   'All sequences of the stated operations up to the depth given in the evidence.'),
 'C14': ('exhaustive pairwise comparison of identities over a bounded universe of definitions', 'model_checking',
   'All pairs of the universe, within and across kinds.'),
 'C03': ('exhaustive enumeration of equivalent spellings of all schemas of a bounded family, each pair diffed in both directions', 'model_checking',
   'Every pair of equivalent variants of the schemas in the family; equivalence is by construction of the variants.'),
 'C05': ('exhaustive enumeration of schema pairs, options and entry points, the outputs compared with the framing rule and with each other', 'model_checking',
   'All pairs of the schema family under all options, all entry points and all error inputs of the catalog.'),
 'C15': ('exhaustive enumeration of URIs, file contents, repository histories and read faults against real files, repositories and readers', 'model_checking',
   'All combinations of the stated catalogs; contents are compared with what was stored.'),
 'C16': ('exhaustive fault enumeration: a scripted MySQL server that fails at every packet and byte position of every conversation', 'model_checking',
   'All table catalogs, failure points and failure kinds up to the stated bounds, over an in-process connection with the real driver.'),
 'C17': ('exhaustive fault injection: every position and kind of a failing or short write or read', 'model_checking',
   'Every byte position and call of every operation in the catalog.'),
 'C18': ('exhaustive enumeration of the traces of the grammar machine and of indentations, linted, and the layout compared with a reference', 'model_checking',
   'All transitions of the grammar machine and all indentations of the catalog.'),
 'C19': ('exhaustive enumeration of argument lists, inputs and output states, each run as a real process', 'model_checking',
   'All combinations of the stated catalogs of arguments, inputs and output files, including faults of the destination.'),
 'C04': ('stateless exploration of the real code in a Go runtime whose map iteration, hash seeds, selects and scheduling are choices of the explorer; exhaustive call histories', 'model_checking',
   'All executions with up to the stated number of deviations from the default choices, all call sequences up to the stated length; rotations as iteration orders of small maps, six orders of large ones per hash seed.'),
 'C20': ('stateless exploration of thread interleavings of the real code under a controlled scheduler inside of the Go runtime, every execution watched by the race detector', 'model_checking',
   'All schedules of the scenarios up to the stated bound of deviations (preemptions and other choices); choices before synchronization operations, unsynchronized accesses left to the race detector in the same executions.'),
}
TODO = {}
checks = []
for k in sorted(EXPL):
    t, l, n = EXPL[k]
    checks.append(dict(property=k, quick_cmd='./run.sh ' + k, thorough_cmd='VERIF_TIER=thorough ./run.sh ' + k,
                       technique=t, level=l, level_note=n))
props = [json.loads(x)['id'] for x in open(here + '/properties.jsonl')]
m = dict(version=1, setup_cmd='./run.sh -build', checks=checks,
         not_applicable=[dict(property=p, reason=TODO.get(p, 'The check is still being built.')) for p in props if p not in EXPL],
         notes='All checks are one Go program (mc), built from /repo\'s working tree on every run. See DESIGN.md.')
open(here + '/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
