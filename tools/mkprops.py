#!/usr/bin/env python3
"""Writes properties.jsonl. The properties are kept here, where they are readable."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, hook=None, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=observe, hook_needed=hook)))

prop('C01', 'The first source in the hierarchy that has the key decides the value',
  'With the default (first found) strategy, a lookup returns exactly the value that the first source in hierarchy order has for the key, also when that value is false, null, zero, or empty, and reports not found only when no source has it. '
  'This holds for every kind of hierarchy entry (built in data_hash functions, in-process functions of all three kinds, all kinds of locations, missing files) in every combination, and locations within an entry count in the order they are given. '
  'Functions of lower priority are not consulted for the key once it has been found.',
  ['configurations', 'inputs'], 'All hierarchies up to a bounded length over all kinds of entries, and every way in which a key can be present in or absent from their sources.',
  'The tests look up a handful of keys in fixed hierarchies of two or three yaml files; precedence must hold for every combination of entry kinds, presence, and falsy values.',
  ['session/invocation.go', 'session/resolvedconfig.go', 'merge/strategy.go', 'internal/datahashprovider.go', 'internal/lookupkeyprovider.go', 'internal/datadigprovider.go', 'provider/configlookupkey.go', 'config/entry.go'],
  [('MergeHierarchy and MergeLocations', 'session/invocation.go'), ('first found strategy', 'merge/strategy.go')],
  ['value returned by a lookup', 'calls that reach in-process provider functions'])

prop('C02', 'Merge strategies combine all sources as documented without altering them',
  'The first, unique, hash, and deep strategies each return the documented combination of the values of all sources that have the key, with higher priority sources winning conflicts, locations of an entry merged before entries, and sources that lack the key ignored; an unknown strategy is an error. '
  'Merging never alters the merged data, so the outcome of a lookup does not depend on merges made before it.',
  ['inputs', 'configurations'], 'All tuples of values (scalars, null, flat and nested arrays with duplicates, nested and conflicting maps, absent) over all arrangements of sources, for every strategy and form of the merge option.',
  'Tests merge a few fixed maps and arrays from two files; the algebra (type conflicts, null, duplicates, nesting, one source only, three or more sources) is not sampled.',
  ['merge/strategy.go', 'merge/deepmerge.go', 'session/invocation.go'],
  [('merge strategies', 'merge/strategy.go'), ('Deep', 'merge/deepmerge.go')], ['value returned by a lookup'])

prop('C03', 'Lookup options apply to exactly the keys they are declared for',
  'The merge strategy of a lookup is the one given explicitly, otherwise the one declared in lookup_options for exactly the root of the looked up key, otherwise first found; convert_to (with its arguments) is applied once to whatever is found, after the merge. '
  'Declarations from all sources are deep merged by priority, a module can declare options only for its own keys, options of one key never affect another key (including keys reached by interpolation), and lookup_options itself can not be looked up.',
  ['configurations', 'inputs'], 'All pairs of declarations over all places where they can be declared, all forms of keys, values, and explicit merge options.',
  'Tests cover a few declarations with one source each; interplay of declarations, sub keys, aliases, modules, and explicit strategies needs all combinations.',
  ['session/resolvedconfig.go', 'session/invocation.go', 'provider/configlookupkey.go', 'provider/muxlookupkey.go', 'provider/modulelookupkey.go'],
  [('SetMergeStrategy, LookupAndConvertData', 'session/invocation.go'), ('LookupOptions', 'session/resolvedconfig.go')], ['value returned by a lookup'])

prop('C04', 'Keys are parsed by the documented syntax and dig into values accordingly',
  'A key is split at dots that are not quoted; a quoted segment is always a string, an unquoted integer segment is an index, and an empty unquoted segment, an unterminated quote, or a leading index is an error, never a different key. '
  'The first segment selects the value and each further segment selects an element by index from an array or an entry by key of exactly that type from a map; anything else is not found. Burying a value under a key and digging with the same key returns the value.',
  ['inputs'], 'All strings up to a bounded length over an alphabet with every significant character, and all short segment sequences against all shapes of values.',
  'Tests parse about ten keys; the syntax must hold for every string.',
  ['api/key.go', 'session/invocation.go', 'session/interpolate.go', 'internal/datadigprovider.go'],
  [('NewKey', 'api/key.go'), ('Dig, Bury', 'api/key.go')], ['parts of a key', 'value returned by a lookup'])

prop('C05', 'Interpolation replaces each expression once, everywhere, and nothing else',
  'Every %{...} expression in strings, arrays, and keys and values of maps of found data, and in variables that are referred to, is replaced by the value of the variable or by what its method (scope, lookup/hiera, alias, strict_alias, literal) stands for; unknown variables and keys become empty, and text outside expressions, including text produced by an interpolation, stays as it is. '
  'An alias must be the whole string and keeps the type of its value, an alias for a missing key is an empty string, a strict_alias for a missing key is not found, and unknown methods, misplaced aliases, and methods used in the configuration are errors.',
  ['inputs', 'configurations'], 'All short concatenations of expression fragments (valid, nested, quoted, malformed), in every place where interpolation takes place.',
  'Tests interpolate some fifteen strings; placement, nesting, adjacency and malformed expressions combine freely in real data.',
  ['session/interpolate.go', 'session/invocation.go', 'internal/datahashprovider.go', 'config/entry.go', 'config/path.go', 'config/uri.go', 'config/function.go'],
  [('InterpolateString, InterpolateInScope', 'session/interpolate.go')], ['value returned by a lookup', 'options that reach a provider function'])

prop('C06', 'Every lookup ends: cyclic references are reported as errors',
  'A lookup returns or fails for every set of data, variables, options, and modules whose values refer to each other: a reference that (directly or indirectly) needs its own value is an error, and one that does not is resolved, also when the same key is needed many times. '
  'A failed lookup leaves nothing behind that makes a later lookup of other keys in the same invocation fail.',
  ['configurations', 'inputs'], 'All reference graphs over a bounded number of keys and variables, with every kind of reference as edge.',
  'A test cannot enumerate reference graphs, and each undetected cycle ends in a crash (stack overflow) that takes the process down.',
  ['session/interpolate.go', 'session/invocation.go', 'session/resolvedconfig.go'],
  [('name stack', 'session/invocation.go WithKey'), ('enterVariable', 'session/interpolate.go')], ['value or error of a lookup', 'the process is still alive'],
  state=[('nameStack', 'keys and variables whose resolution is in progress', 'session/invocation.go')])

prop('C07', 'The outcome of a lookup does not depend on what was looked up before it',
  'Within a session, each lookup returns what it would return if it were the first, regardless of which lookups, with which keys, merge options, scopes, explainers, and outcomes (including failures), were made before it using the same or another invocation. '
  'Failures are never remembered as results, and a configuration that could not be loaded is loaded again when it is needed the next time.',
  ['histories'], 'All sequences of operations up to a bounded length over an alphabet that covers every kind of lookup, failure, and invocation reuse.',
  'Tests use a new session, and mostly one single lookup, each; dependence on history shows up only in sequences.',
  ['session/session.go', 'session/invocation.go', 'session/resolvedconfig.go', 'internal/datahashprovider.go', 'provider/modulelookupkey.go', 'provider/yamllookupkey.go', 'session/serverctx.go'],
  [('shared configuration cache', 'session/invocation.go Config'), ('provider caches', 'internal/')], ['value or error of each lookup'],
  state=[('configs', 'resolved configurations of an invocation', 'session/invocation.go'), ('SharedCache', 'loaded configurations', 'session/session.go')])

prop('C08', 'Concurrent lookups in one session behave as if they ran one at a time',
  'When several go routines make lookups using invocations of their own in one shared session, every lookup returns what it returns when it runs alone, none of them deadlocks or waits for something that never happens (also when configurations or functions fail to load), and there are no data races. '
  'Provider functions see a session cache in which each operation on an entry takes effect at one point in time.',
  ['schedules', 'histories'], 'All interleavings, up to a bound on preemptions, of two or three concurrent lookups at the granularity of synchronization operations and provider calls, from cold and warm caches.',
  'A test runs under whatever schedule the runtime happens to choose; the windows of interest (first load of a configuration, module, or plugin, failing loads) are a few instructions wide.',
  ['session/session.go', 'session/invocation.go', 'session/serverctx.go', 'session/pluginloader.go', 'internal/datahashprovider.go', 'provider/modulelookupkey.go', 'provider/yamllookupkey.go', 'hieraserver/rest/rest.go'],
  [('per configuration lock', 'session/invocation.go Config'), ('loadLock', 'session/session.go LoadFunction'), ('sync.Map caches', 'session/session.go')],
  ['value or error of each lookup', 'deadlock', 'reports of the race detector'],
  'The check rewrites the import of package sync in a scratch copy (build overlay) to get at every synchronization operation. No hook in the repository is needed.')

prop('C09', 'Explaining a lookup never changes it, and the explanation tells what happened',
  'A lookup with an explainer returns what it returns without one. The explanation is a well formed tree whose providers, locations, keys, interpolations, and merges are those that were consulted, in the order they were consulted, each marked as found (with the value found there), not found, or missing, and it is the same when rendered repeatedly. '
  'Lookup options are explained only when asked for, and data is not explained when only options are asked for.',
  ['configurations', 'inputs'], 'All explored configurations and lookups of the other lookup properties, with every mode of the explainer.',
  'Tests compare the text of some ten explanations; faithfulness must hold for every lookup.',
  ['explain/explainer.go', 'session/invocation.go', 'session/interpolate.go', 'merge/strategy.go', 'internal/datahashprovider.go', 'api/key.go'],
  [('With... and Report... methods', 'session/invocation.go'), ('explain tree', 'explain/explainer.go')], ['calls that reach an explainer', 'text of an explanation', 'value returned by the lookup'])

prop('C10', 'Overrides, names, defaults, and types are applied in the documented order',
  'A lookup with several names returns the first override found for a name, else the first found name in the order given, else the first entry in the hash of defaults, else the default value, else the result of the default function, which is called only then; a lookup of all names does this for each name and returns exactly the names that were found. '
  'The result is an instance of the requested type, unchanged if it already was and otherwise converted, or the lookup fails.',
  ['inputs', 'configurations'], 'All combinations of presence in overrides, data, and defaults for up to three names, with default value, default function, and types.',
  'Tests cover each fallback alone with one or two names; the order among them is only visible in combinations.',
  ['hiera/hiera.go'], [('Lookup2, LookupAll, ensureType', 'hiera/hiera.go')], ['value or error of the lookup', 'calls of the default function'])

prop('C11', 'Invalid configurations are rejected, and valid ones accepted, as the schema says',
  'A hiera.yaml is accepted only if it is version 5 and uses known keys with values of the declared types, each entry having a unique name, at most one function, at most one kind of location, and no reserved option names; everything else is reported as an error and never silently interpreted as something else. '
  'Whatever the loader accepts is valid according to the published JSON schema, and whatever the schema rejects is rejected by the loader.',
  ['configurations', 'inputs'], 'All configurations composed from a bounded number of keys and values, valid and invalid, at every level.',
  'Tests load three or four files; the rules form a product of keys, types and exclusions.',
  ['config/config.go', 'config/entry.go', 'config/function.go', 'schema/hiera_v5.yaml'],
  [('cfgType', 'config/config.go'), ('createHierarchy, createEntry', 'config/config.go'), ('schema', 'schema/hiera_v5.yaml')], ['configuration or error of a load', 'verdict of a schema validation'])

prop('C12', 'Configurations resolve to the files and options that they describe',
  'Each hierarchy entry uses its own function, datadir, options, and locations, or else those of defaults, or else the built in ones (yaml_data, the data directory, HIERA_DATADIR), with all variables replaced, relative to the directory of the configuration, in the order given; globs expand to existing files in alphabetical order and mapped paths to one path per element. '
  'Without a configuration file, data.yaml and data/common.yaml are used, and the options, environment and file name settings select the configuration in the documented order.',
  ['configurations', 'inputs'], 'All combinations of defaults and entry settings, location kinds, existing and missing files, and settings that select the configuration.',
  'Tests use a few fixed configurations; inheritance and location expansion are products of independent settings.',
  ['config/config.go', 'config/entry.go', 'config/path.go', 'config/glob.go', 'config/mappedpaths.go', 'config/uri.go', 'session/session.go', 'session/resolvedconfig.go'],
  [('Resolve', 'config/entry.go'), ('locations', 'config/'), ('addHieraConfig', 'session/session.go')], ['files that a lookup consults', 'options that reach a provider function', 'resolved configuration'])

prop('C13', 'Module keys are found in the right module and nowhere else',
  'A key with a module prefix is looked up in the configuration of the first module in the module path that matches the prefix regardless of case, combined with the other lookup functions in the order they are configured; a module never provides values or options for keys without its prefix, and the absence of a module, its configuration, or the module path means not found. '
  'Which modules have been used before never matters.',
  ['configurations', 'inputs'], 'All layouts of up to two module directories with present, absent, misplaced, and differently cased modules, all orders of lookup functions, and all shapes of keys.',
  'Tests cover one layout with three modules.',
  ['provider/modulelookupkey.go', 'provider/muxlookupkey.go', 'provider/configlookupkey.go', 'session/resolvedconfig.go'],
  [('ModuleLookupKey', 'provider/modulelookupkey.go'), ('MuxLookupKey', 'provider/muxlookupkey.go')], ['value returned by a lookup'])

prop('C14', 'Plugin processes are bounded by their session, whatever way they fail',
  'For every way in which a plugin can misbehave while it starts, answers, or ends, a lookup that needs it returns the value or an error in bounded time, other lookups in the session keep working, and a plugin that was started is reused rather than started again, while one that could not be started is started anew when it is needed again. '
  'When the plugins of a session are killed, no process, file descriptor, or go routine that was created on their behalf remains, also for plugins that refuse to end or whose start failed.',
  ['fault_sequences', 'histories'], 'All single faults, and pairs of faults, of a plugin at each step of its protocol (start, handshake, each request, termination), over sequences of lookups.',
  'Tests run one well behaved plugin, one that panics, and one that refuses to die; faults in the handshake and in responses, and what they leave behind, are not covered.',
  ['session/pluginloader.go', 'session/plugintransport.go', 'session/proc_unix.go', 'session/session.go'],
  [('plugin registry', 'session/pluginloader.go'), ('KillPlugins', 'session/session.go')], ['value or error of a lookup', 'processes, descriptors and go routines that remain'])

prop('C15', 'Provider functions get and give the same whether in-process or in a plugin',
  'A function of any of the three kinds is called with the options of its entry, the resolved location as path, and the requested key, and what it returns is what the lookup uses, identically for an in-process function and for the same function in a plugin, for every value that can be represented as data. '
  'A function that finds nothing means not found, and one that fails means that the lookup fails with its message.',
  ['inputs', 'configurations'], 'All function kinds and ways to host them over all shapes of options, keys, and values.',
  'Tests pass one or two strings through one plugin.',
  ['internal/datahashprovider.go', 'internal/lookupkeyprovider.go', 'internal/datadigprovider.go', 'session/pluginloader.go', 'session/serverctx.go', 'provider/yamldata.go', 'provider/jsondata.go', 'provider/environment.go', 'provider/scopelookupkey.go'],
  [('callPlugin', 'session/pluginloader.go'), ('providers', 'internal/')], ['arguments that reach the function', 'value returned by the lookup'])

prop('C16', 'REST requests are independent of each other and answered with the right status',
  'Every request to the lookup endpoint is answered with the same value that a lookup with the same key, merge, default, type, and variables yields, rendered as JSON, with 404 when it is not found, and with 500 and a message (never with a value, a dropped connection, or a crash) when the request is bad or the lookup fails. '
  'The variables, defaults, and failures of one request never affect another one, no matter how requests are ordered or overlap.',
  ['inputs', 'histories', 'schedules'], 'All combinations of request parameters, all bounded sequences of requests, and interleavings of concurrent requests at the points where they share memory.',
  'Tests send ten fixed requests, one at a time.',
  ['hieraserver/rest/rest.go', 'hiera/hiera.go', 'hiera/render.go'],
  [('CreateRouter', 'hieraserver/rest/rest.go')], ['status and body of each response'],
  'The check adds a file to package main of the server by a build overlay. No hook in the repository is needed.')

prop('C17', 'The command line gives what the API gives, in each output format',
  'The lookup command prints the value that the same lookup yields through the API, prints nothing when it is not found, and fails with an error when the lookup does; the yaml and json formats decode to the same data, the string format is the text of the value, and binary writes the bytes. '
  'Every combination of its flags for merge, type, default, variables, facts, explain, and rendering is honoured, and values of flags that cannot be used are errors.',
  ['inputs', 'configurations'], 'All combinations of flags within bounded sets of values, and all shapes of values in all output formats.',
  'Tests run some twenty command lines; flags and formats combine freely.',
  ['cli/executelookup.go', 'cli/hiera.go', 'lookup/lookup.go', 'hiera/hiera.go', 'hiera/render.go'],
  [('LookupAndRender', 'hiera/hiera.go'), ('Render', 'hiera/render.go'), ('flags', 'cli/executelookup.go')], ['output and exit of the command'])

prop('C18', 'Variables resolve with the documented precedence and are parsed faithfully',
  'A variable given to an invocation hides one with the same name in the session scope and no other; among the sources given to a command the later one wins, facts are visible both directly and below facts, and each "name=value" or "name:value" argument yields that name and the value it denotes, or an error. '
  'Neither the scope of the session nor the maps of the caller are ever altered, and a variable set while mapped paths are expanded is gone afterwards.',
  ['inputs', 'configurations'], 'All combinations of bounded sets of variables over all the sources that can provide them, and all variable arguments up to a bounded length over an alphabet of significant characters.',
  'Tests pass a variable or two through one source at a time.',
  ['hiera/hiera.go', 'session/session.go', 'session/invocation.go', 'config/mappedpaths.go', 'provider/scopelookupkey.go'],
  [('createScope, parseCommandLineValue', 'hiera/hiera.go'), ('nestedScope', 'session/invocation.go')], ['value returned by a lookup of, or interpolation of, the variable'])

prop('C19', 'Values that lookup options declare as Sensitive are never revealed',
  'When lookup_options convert a value to Sensitive, in any form of the type, neither the result rendered as text, nor any explanation of the lookup (rendered in any format), nor the string form used when it is interpolated into another value, contains the value or a part of it, however it was found, merged, or interpolated. '
  'The value itself is available to a caller of the API, wrapped, and in the yaml and json renderings, marked as sensitive.',
  ['inputs', 'configurations'], 'All combinations of declarations of the type, kinds of sources, merge strategies, interpolations, and output formats.',
  'Tests explain one sensitive string found in one file.',
  ['session/invocation.go', 'explain/explainer.go', 'hiera/render.go', 'session/interpolate.go'],
  [('DoRedacted', 'session/invocation.go'), ('redacted reports', 'session/invocation.go')], ['text of explanations', 'rendered output'])

prop('C20', 'Files that are missing mean no data, files that are unusable mean an error',
  'A data file, configuration, or module that does not exist is treated as empty, default, or absent, whereas one that cannot be read, is not well formed, or has the wrong structure makes the lookups that need it fail with an error, never with a wrong value or a crash. '
  'Lookups that do not need the file are not affected, and once the file is repaired a new lookup succeeds, in the same session unless documented as cached.',
  ['fault_sequences', 'crash_points'], 'Every file of a configuration with each kind of fault, including truncation at every byte, and sequences of fault and repair.',
  'Tests cover a missing file and one file that is not a hash.',
  ['provider/yamldata.go', 'provider/jsondata.go', 'config/config.go', 'provider/modulelookupkey.go', 'session/invocation.go', 'hiera/hiera.go'],
  [('error handling of readers', 'provider/yamldata.go, provider/jsondata.go, config/config.go')], ['value or error of a lookup'])

prop('C21', 'The cache that provider functions share is an exact map, living in the session',
  'What a provider function caches is what any provider function in the same session reads back under that key until it is replaced, replacing a value returns the previous one, all entries (and nothing else) are enumerated, and nothing leaks from one session to another. '
  'Options seen by a function are those of its entry, read with the type asked for or not at all.',
  ['histories', 'inputs'], 'All sequences of cache operations up to a bounded length over two functions, two keys and three values, in two sessions, and all typed option reads.',
  'Tests cache one or two values.',
  ['session/serverctx.go', 'session/session.go'],
  [('TopProviderCache', 'session/session.go'), ('Cache, CacheAll, CachedValue, CachedEntries', 'session/serverctx.go')], ['results of the cache operations'])

prop('C22', 'yaml2json prints the JSON that denotes the same data, or fails',
  'For every YAML document that denotes data with string keys, yaml2json exits with 0 and prints one JSON document that denotes the same data; for input that is not well formed, not readable, or denotes something that JSON has no representation for (such as NaN or a key that is a list), it exits with non zero and a message, printing no partial result.',
  ['inputs'], 'All YAML documents composed from a bounded number of scalars of every kind, and nested containers, in flow and block style, plus all malformed ones in the same alphabet.',
  'There are no tests.',
  ['yaml2json/main.go'], [('main', 'yaml2json/main.go')], ['output and exit of the command'])

prop('C23', 'The REST server answers exactly the clients that its flags admit',
  'With a certificate and its key, the server speaks only TLS and presents exactly that certificate; with clientCertVerify it answers only clients that present a certificate, valid for client authentication, that is issued by the given authority (without one: an authority that the system trusts), and nobody else gets an answer that depends on data; without clientCertVerify every TLS client is answered, and without certificate and key every HTTP client. '
  'The server listens on the given address and port only. Flags that cannot be honoured (a certificate, key, or authority that is missing, unreadable, malformed, or does not match, only one of certificate and key, client verification without TLS, an address that cannot be listened on) end the server with an error; they are never ignored.',
  ['configurations', 'inputs'], 'All combinations of the flags for certificate, key, authority, and verification with files of all kinds, and clients of all kinds in two orders.',
  'There are no tests of TLS. Admission has to hold for each combination of flags and each kind of client.',
  ['hieraserver/rest/rest.go'], [('makeTLSconfig', 'hieraserver/rest/rest.go'), ('startServer', 'hieraserver/rest/rest.go')], ['answers to clients', 'exit of the server'])

prop('C24', 'Keys, locations, and explanations can be compared, stored, and converted',
  'Keys and locations of all kinds (also resolved ones) are equal exactly when everything they consist of is equal, which is reflexive, symmetric, and transitive, and equal ones have the same hash code, so that they work as keys of maps. '
  'Keys, locations, and complete explanations survive being converted to JSON or YAML and back, also inside of other values: what comes back is an equal key or location, or an explanation that reads the same. An explainer shows what it was told in the order it was told, for every sequence of events, in text as well as in data, and rendering it does not alter it.',
  ['inputs', 'histories'], 'All keys up to a bounded length, all locations over bounded fields, all pairs of them, and all well formed sequences of events that an explainer is told up to a bounded length.',
  'Tests convert one explanation and no key or location.',
  ['api/key.go', 'config/path.go', 'config/uri.go', 'config/glob.go', 'config/mappedpaths.go', 'explain/explainer.go'],
  [('named types', 'api/key.go, config/*.go, explain/explainer.go')], ['equality', 'hash codes', 'JSON and YAML', 'text'])

prop('C25', 'Lookup functions used without a configuration find what they say, in order',
  'The lookup functions that a session is given, which can be the configuration, modules, the environment, the scope, a single data file, and functions of the user, are all asked for lookup options first, which are merged, and then for values, in the order they are given; the value is the first one that is found, or all of them merged by the strategy that the caller or else those options ask for, then converted, interpolated, and dug into as any other value. '
  'The key env is all environment variables, env:: and a name is the value of that variable, all of it and also when it is empty, and a variable or key that does not exist means not found. A function that finds values never makes the options of another one disappear.',
  ['configurations', 'inputs'], 'All sequences of up to four lookup functions of eight kinds, alone and in a mux, with all merge options, and long sequences.',
  'Tests use two or three such functions, one at a time and mostly without merging or options.',
  ['provider/muxlookupkey.go', 'provider/environment.go', 'provider/scopelookupkey.go', 'provider/yamllookupkey.go', 'session/invocation.go', 'merge/strategy.go'],
  [('MuxLookupKey', 'provider/muxlookupkey.go'), ('Environment', 'provider/environment.go'), ('YamlLookupKey', 'provider/yamllookupkey.go')], ['value, not found, or error of a lookup'])


with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
