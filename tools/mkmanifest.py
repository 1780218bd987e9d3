#!/usr/bin/env python3
"""Writes MANIFEST.json. Checks that are not built yet are listed as not applicable for the time being."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, '..')
REF = 'bounded exhaustive enumeration of executions of the real code, each compared with an executable reference model'
C = {
 'C01': (REF, 'exploration', 'Every hierarchy up to the bound, over 16 kinds of entries and all ways a key can be present, is executed on the real code and compared with a reference interpreter that shares no code with it. Trusts the reference interpreter; nothing is said about longer hierarchies.'),
 'C02': (REF, 'exploration', 'Every tuple of up to three values from a set with all type conflicts, for all strategies and arrangements of sources, executed and compared with the reference. Trusts the reference interpreter; larger values are not explored.'),
 'C03': (REF, 'exploration', 'Every pair (thorough: triple) of declarations in all places where they can be declared, with 18 lookups in two orders for each. Conversions only to string, int and sensitive.'),
 'C04': (REF, 'exploration', 'Every string up to the bound over an alphabet with all significant characters is parsed and compared with an independent parser of the documented syntax; short segment sequences are used to bury, dig, and look up. Partly quoted segments are not judged.'),
 'C05': (REF, 'exploration', 'Every concatenation of up to three (thorough: four) fragments in every place that is interpolated, compared with a reference in which the outcome of an interpolation is never interpolated again.'),
}
C['C06'] = (REF, 'exploration', 'All reference graphs up to the bound, over all kinds of references (aliases, lookups, variables, options, modules), are resolved by the real code in a process with a time limit and compared with the reference, which detects cycles on its own.')
C['C07'] = (REF, 'exploration', 'All histories of lookups up to the bound over an alphabet of 33 operations x 3 kinds of invocations; each outcome in the history is compared with the outcome in a new session. Longer histories are not explored.')
C['C09'] = (REF, 'exploration', 'What the explainer is told is compared, event by event, with the trace of the reference interpreter, and the renderings with the tree of what was told. The steps that precede a failure are only required to be a tree.')
C['C10'] = (REF, 'exploration', 'All sequences of up to three (thorough: four) names of nine kinds, times overrides, default maps, default values, default functions, types, and merges, are run and compared with the reference order. Type conversions that the reference has no opinion about are judged only by membership in the type.')
C['C11'] = (REF, 'exploration', 'All documents up to the bounds are loaded as the configuration of a session and of a module. The oracle of validity is hand written, the schema is evaluated by an independent evaluator, and accepted configurations must consist of what the document says.')
C['C12'] = (REF, 'exploration', 'All configurations with three entries in the bounds. Every file and function tells who it is and how it was called, so that one lookup observes everything that was consulted and in which order; the oracle interprets the configuration on its own, including globs.')
C['C13'] = (REF, 'exploration', 'All module paths up to the bound with modules present in eleven ways, eleven arrangements of top functions, all queries after each first query, in new and shared invocations.')
C['C18'] = (REF, 'exploration', 'All combinations of session variables and the variables of two invocations in five representations, all sequences of up to three (thorough: four) sources given to a command, and all arguments up to the bound in two dialects. Oracle: precedence by definition, and an independent splitter of arguments.')
C['C17'] = (REF, 'exploration', 'All values x renderings x dialects, and the product of names, merges, types, defaults, variables, renderings, explanations and --all, run through the command (in process, and as an executable for exit codes and standard output) and compared with the same lookup through the API. Renderings are decoded by independent decoders.')
C['C22'] = (REF, 'exploration', 'All short strings over an alphabet with everything significant in YAML, and all trees up to the bound, are given to the built command. Well-formedness is decided by the YAML parser that the command uses (a dependency); what the nodes denote is decided independently.')
C['C19'] = (REF, 'exploration', 'All combinations of forms of the type, shapes of the value, kinds of entries, merges, and main or module data; for each, every key that refers to the sensitive one in some way is looked up in all explain modes and everything rendered is searched for marks that all parts of the value contain. Error messages are not judged.')
C['C20'] = ('exhaustive enumeration of file faults and of histories of them on the real code, compared with an executable reference model', 'fault_enumeration', 'Every file that a lookup can need in every state, alone and in pairs; all histories of states up to the bound with changes between and during lookups; every torn write; every byte replaced. A configuration that was loaded may be retained by the session and data by the invocation. Well-formedness is decided by independent decoders (the YAML one uses the parser of the dependency).')
C['C21'] = ('explicit state model checking: all operation sequences up to a depth, each replayed on the real code and compared with the model after every step', 'model_checking', 'Every sequence of up to three (thorough: four) cache operations made by functions of all kinds, in two interleaved sessions and nested ones, with full observation after each step; every option value in every kind of function through every accessor. Larger numbers of keys are not explored; concurrency is decided by C08.')
C['C15'] = (REF, 'exploration', 'The same functions of all three kinds, in-process and in a plugin process over both transports, are given all keys, options and locations in the bounds and give all values and failures; what reaches them and what the lookup gives is compared with what was passed. Mixtures of functions are merged. All ways to tell where a plugin is are resolved. Floats without a fraction may become integers (dependency).')
C['C08'] = ('stateless model checking of the implementation: controlled scheduler, preemption bounded dynamic partial order reduction, race detector on every schedule', 'model_checking', 'All schedules of pairs of 27 kinds of lookups with at most two (thorough: three) preemptions, from cold and warm sessions, triples with one (two), and all schedules of short sequences of cache operations, which must be linearizable. The real code runs; hiera and the loader of dgo are compiled with a package in place of sync that lets the scheduler decide at each operation. Other dependencies, and the go routines that serve a plugin, are not controlled. Trusts the reduction (C08 thorough also runs without it).')
C['C14'] = ('exhaustive fault injection in the implementation, single faults and pairs of them', 'fault_enumeration', 'A real plugin process follows a script: each of 58 ways to start (alone, and each failing one followed by another), 30 answers at each of three requests and in pairs, 9 ways to end, alone and for two plugins; with a fixed history of lookups in one session. Values, errors, time, which process answers, and the processes, descriptors and go routines that remain are checked. Kinds of functions and transports alternate in quick and are combined in thorough. Real time; a case that fails is run up to three times and must fail each time.')
C['C16'] = ('exhaustive enumeration of requests and of histories of requests against a real server, and stateless model checking of concurrent requests (controlled scheduler, preemption bounded dynamic partial order reduction, race detector)', 'model_checking', 'A real server process gets all combinations of two (thorough: all) parameters, all keys of up to 2 (3) significant characters in two encodings, and a sequence in which every three of 30 requests and changes of the data follow each other, with six sets of flags. Pairs and triples of 16 requests run concurrently on the real handler in all schedules with at most two (three) preemptions. What the lookup itself yields is decided by the other properties. The HTTP implementation of Go is not controlled.')
C['C23'] = ('exhaustive enumeration of configurations of the real server process and of kinds of clients, each judged by the definition of who is admitted', 'exploration', 'Every combination of nine certificates, nine keys, ten authorities and four ways to ask for verification starts a real server process; each one that can be honoured is contacted by twelve kinds of clients in two orders, with HTTP/1 and HTTP/2. The TLS protocol itself (the standard library) is not explored.')
C['C24'] = (REF, 'exploration', 'All keys up to four significant characters and all locations over bounded fields, in all pairs; all well formed sequences of up to four (thorough: five) of 26 events told to a real explainer. Explanations with a node about which nothing is told are rendered but not converted back.')
C['C25'] = (REF, 'exploration', 'All sequences of up to three (seven of the keys: four; thorough: four) of eight lookup functions, alone and in a mux, times 31 keys and six merge options, in new and shared invocations, and long sequences. A function of the user that has values must not return them when lookup options are wanted; what happens otherwise is not judged.')
exec(open(os.path.join(here, 'manifest_more.py')).read()) if os.path.exists(os.path.join(here, 'manifest_more.py')) else None
ids = [json.loads(l)['id'] for l in open(os.path.join(root, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='./check.sh build', checks=[], not_applicable=[])
for i in ids:
    if i in C:
        t, l, n = C[i]
        m['checks'].append(dict(property=i, quick_cmd='./check.sh ' + i, thorough_cmd='VERIF_TIER=thorough ./check.sh ' + i,
            evidence_file='evidence/%s.json' % i, technique=t, level=l, level_note=n))
    else:
        m['not_applicable'].append(dict(property=i, reason='The check is not built yet; no claim is made until it is.'))
m['notes'] = 'Approach, bounds, and results per property are in DESIGN.md. No hooks are needed in the repository: instrumentation is made in scratch copies at check time.'
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
