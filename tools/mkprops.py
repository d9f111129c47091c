#!/usr/bin/env python3
"""Writes properties.jsonl (the list lives here to keep it readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=observe, hook_needed=None)))

FL = 'ngoschema/protocols/file_loader.py'; OP = 'ngoschema/protocols/object_protocol.py'
CP = 'ngoschema/protocols/collection_protocol.py'; AP = 'ngoschema/protocols/array_protocol.py'
TB = 'ngoschema/managers/type_builder.py'; UR = 'ngoschema/resolvers/uri_resolver.py'

p('C01', 'A save that fails or is interrupted keeps a complete version of the file',
  'When a save to a file is cut short at any point, by the death of the process or by a failing or partial system call, the file afterwards holds exactly its previous bytes or exactly the complete new bytes, and every other file is left alone. '
  'An interrupted append leaves the previous bytes followed by a prefix of what was appended. '
  'After a restart the same save can simply be done again, and a save that returned normally has stored the complete new content.',
  ['crash_points', 'fault_sequences', 'histories'],
  'every history of saves and appends (text and binary, new and existing files, missing directories) x a process death before, in the middle of or after any system call x any errno or short write on any system call',
  'The tests never write a file through the library, and a test samples neither crash points nor system call failures.',
  [FL], [('content written aside then put in place of the file', FL + ':_replace_file'), ('appending', FL + ':FileSaver._append_file')],
  ['bytes of the files of the directory after the crash or failure, from another process'])
p('C02', 'Reading gives exactly what was last written, or fails',
  'Loading or reading a file gives exactly the text or bytes of the acknowledged saves and appends, with the charset, binary and append options given to the call or to the file object, however the system splits or interrupts the transfers. '
  'A read which meets an input/output error raises an error instead of returning part of the content. '
  'Saving the content the file already has does not rewrite the file.',
  ['histories', 'fault_sequences', 'inputs'],
  'every history of write, append, save, read and load calls over several files with mixed text and binary contents, line endings and charsets x short reads, short writes, EINTR and errors on any system call',
  'The tests never go through the file layer; whether options and buffers are honoured depends on the history and on how the kernel splits the transfers.',
  [FL, 'ngoschema/models/files.py'], [('reads and writes through one function each', FL + ':FileLoader._read_file, FileSaver._write_file'), ('comparison with the existing content', FL + ':FileSaver._write_file')],
  ['values returned by read/load', 'bytes on disk', 'inode and modification time of an unchanged file'])
p('C03', 'File operations leave no open handle and no stray file behind',
  'Whether a read, save or append succeeds or fails at any system call, it closes every file it opened and leaves in the directory no file other than those it was asked to write. '
  'After any number of failed operations the next one works as if the failures had not happened.',
  ['fault_sequences', 'histories'],
  'every history of file operations x an error on any system call they make (open, read, write, stat, rename, mkdir, chmod, close)',
  'Leaks only show on failure paths and after many operations; no test makes a system call fail.',
  [FL, 'ngoschema/loaders/schemas.py', 'ngoschema/models/files.py'], [('files opened in with blocks, temporary file removed on failure', FL)],
  ['descriptors of the process open on the directory', 'listing of the directory'])
p('C04', 'File objects describe the file they designate',
  'The raw content given by a file or document object is that of the file it designates now: the path last assigned, in the current text or binary mode, including what was written or appended through the object itself; a designated file that does not exist has no content. '
  'The size and the sha1 digest given by a file information object are those of the bytes of its file when it is first asked for them. '
  'A transient read failure is reported to the reader and does not change what later reads give.',
  ['histories', 'fault_sequences'],
  'every history of path changes, mode changes, writes, appends, content and digest reads on file, document and file information objects over existing and missing files x short reads and transient errors on any read',
  'No test builds a file object; staleness depends on the order of assignments, writes and reads.',
  ['ngoschema/models/files.py', FL, CP], [('content depends on the path and mode', 'ngoschema/models/files.py:File.get_contentRaw'), ('content forgotten when written', 'ngoschema/models/files.py:File._touch_content'), ('digest by blocks', 'ngoschema/models/files.py:FileInfo.get_sha1')],
  ['contentRaw, contentSize and sha1 attributes against the bytes on disk'])
p('C05', 'Loading a folder of schemas isolates the faulty files',
  'Loading the schemas of a module registers, under its declared identifier or else its file name, every schema file of the folder and its subfolders that can be read and parsed, whatever happens to the others. '
  'A file that cannot be read completely or parsed registers nothing and is skipped without hiding the others or what was registered before. '
  'Loading again once the cause has gone registers the rest, and a store given by the caller receives the same documents as the global one.',
  ['fault_sequences', 'inputs', 'histories'],
  'every folder content (valid, truncated, non UTF-8, non JSON, without identifier, nested) x errors and short reads on any system call during the load x any sequence of reloads and edits',
  'The tests load one good folder; partial registration needs a fault in the middle of the load.',
  ['ngoschema/loaders/module.py', 'ngoschema/loaders/schemas.py', UR], [('each file loaded separately with its error logged', 'ngoschema/loaders/module.py:load_module_schemas'), ('registration after a complete parse', 'ngoschema/loaders/schemas.py:load_schema_file')],
  ['documents resolvable afterwards', 'store given by the caller'])
p('C06', 'Resolution follows the documents registered now; fetch failures leave no trace',
  'Resolving a URI, with or without fragment, gives the part of the document registered under it at that moment, whatever was registered, replaced, unregistered or resolved before, and fails if there is none. '
  'A remote document is fetched only when asked for and not yet registered; once fetched it is registered and not fetched again until unregistered. '
  'A fetch that fails (network error, HTTP error status, truncated or invalid body, missing fragment) raises, registers no invalid document, and the next attempt starts afresh.',
  ['histories', 'fault_sequences'],
  'every history of register, replace, unregister, local and remote resolutions with and without fragments over several URIs differing in case and fragments x connection errors, timeouts, HTTP errors, redirects, truncated and invalid bodies on any fetch',
  'The tests only resolve the bundled schemas once; staleness and poisoning need histories and network faults.',
  [UR, 'ngoschema/utils/utils.py'], [('store of documents', UR + ':UriResolver._doc_store'), ('remote fetch', UR + ':_fetch, resolve_doc, UriResolver._resolve')],
  ['values returned or raised by the resolution functions', 'requests reaching the network transport'])
p('C07', 'A failed class construction leaves nothing behind and can be retried',
  'When building the class of a schema fails at any point (a missing, unreachable or invalid schema it refers to or extends, an error while one of its parts is built), the error reaches the caller, neither that class nor a placeholder for it is registered or handed out, and unrelated classes are unaffected. '
  'Once the cause has gone, building it again gives the same class as if the failure had not happened. '
  'A class already built is always the same object, whatever failures happened in between.',
  ['fault_sequences', 'histories'],
  'every family of schemas referring to, extending or containing each other (cycles included) x a failure of any document resolution during any construction x any order of attempts and repairs',
  'The tests build classes from good schemas only; the poisoning of the construction registry needs a failure in the middle of a recursive construction.',
  [TB, OP, AP, 'ngoschema/protocols/type_proxy.py'], [('construction stack popped on failure', TB + ':TypeBuilder.build'), ('placeholders for cycles', 'ngoschema/protocols/type_proxy.py')],
  ['classes returned by load, instances made from them'])
p('C08', 'Threads building the same classes get the same usable classes',
  'Threads that load classes at the same time, the same, related, mutually referring or unrelated ones, all get what a single thread would get: one class per identifier, the same object for every thread, complete and usable for creating and validating instances as soon as it is returned. '
  'No interleaving makes a load fail that succeeds alone, and none blocks forever.',
  ['schedules'],
  'every interleaving, at the granularity of source lines, of two to four threads each loading several classes out of families with shared parts, inheritance and cycles',
  'No test starts a thread; the window between the registration of a class under construction and its completion is a few lines wide.',
  [TB, 'ngoschema/protocols/type_proxy.py', OP, 'ngoschema/managers/namespace_manager.py'], [('constructions serialised', TB + ':_synchronized')],
  ['identity of the classes returned to each thread', 'instances created at once by each thread', 'progress of every thread'])
p('C09', 'Computed properties always reflect the current values they depend on',
  'Reading a property defined by a template, by an expression or by a getter with declared dependencies gives the value computed from the current values of the properties it uses, directly, through other computed properties, inside nested objects or inside arrays, whatever was read and assigned before, both with lazy and with immediate validation, and whether the class defines the getter itself, inherits it or redefines it. '
  'A computation that fails raises to the reader, leaves no wrong value behind, and is done again at the next read. '
  'An assigned valid value is read back as converted by its type, through its name and its aliases.',
  ['histories', 'fault_sequences', 'configurations'],
  'every schema drawn from templates, expressions, getters and setters with chained dependencies, nested objects, arrays, aliases and negated aliases x lazy or immediate validation x every history of reads and assignments x transient failures of any getter call',
  'The tests read each computed property once on fresh objects; staleness depends on the sequence of reads and writes.',
  [CP, OP, 'ngoschema/decorators.py', 'ngoschema/types/strings.py'], [('inputs remembered and compared at each read', CP + ':CollectionProtocol._is_outdated'), ('dependents touched on assignment', CP + ':_items_touch'), ('declared dependencies', 'ngoschema/decorators.py:depend_on_prop')],
  ['values of attributes and items after each step, against a reference evaluation from scratch'])
p('C10', 'A rejected change leaves the object as it was',
  'With immediate validation, an assignment that is rejected, by conversion, validation, a read-only flag, an unknown name or an error raised by the setter, raises and leaves every stored property of the object with the value it had; deleting a required property, or one whose deleter raises, is refused in the same way, and the deleter does not run for a deletion that is refused. '
  'A computed property read afterwards is computed from these values. '
  'The object accepts the next valid change normally.',
  ['histories', 'fault_sequences', 'inputs'],
  'every history mixing valid and invalid assignments by attribute, item, alias and dotted path, on scalars, arrays and nested objects, and failures raised by any call of a setter or of a getter depending on the property',
  'The tests check that bad values raise on fresh objects, not what the object holds afterwards.',
  [OP, CP, AP], [('state given back when the assignment raises', OP + ':PropertyDescriptor.__set__')],
  ['values of every property before and after the rejected operation'])
p('C11', 'Arrays behave as lists of validated items',
  'Under any sequence of insertions, appends, extensions, assignments and deletions of items and slices, removals, pops and reversals, an array of a schema holds the same items, in the same order, as a list given the same operations on converted values, and its text form shows them. Neither the list an array was made from nor an array it was assigned from changes with it, or changes it. '
  'An operation that fails, as it would on the list or because an item is invalid when validation is immediate, raises and leaves the array as it was. '
  'Reading an invalid item of a lazy array raises each time until it is replaced.',
  ['histories', 'inputs', 'configurations'],
  'every history of list operations with in-range, negative and out-of-range positions, valid, convertible and invalid values x lazy or immediate validation x standalone arrays or arrays held by an object',
  'The tests index a couple of fresh arrays; the parallel internal lists drift only along histories with failures.',
  [AP, CP, 'ngoschema/types/array.py'], [('parallel storages updated together', AP + ':ArrayProtocol.insert, __delitem__, __setitem__')],
  ['items, length, iteration and text of the array against a reference list'])
p('C12', 'Sessions are distinct, private to their scope, and survive factory failures',
  'Every session created gets an identifier no other session had, whatever threads create sessions at the same time. '
  'A scoped session gives one thread (or one scope) the same session until it removes it, never the session of another thread or scope; removing closes it and only affects its own scope. '
  'A factory that fails leaves the scope without session, so that the next use creates one, and options given to one creation change neither the factory nor the other sessions.',
  ['schedules', 'histories', 'fault_sequences'],
  'every interleaving at source line granularity of two to four threads x every history of session creation, use, removal, configuration and scope change x failures of any factory call',
  'No test uses a session from two threads or makes a factory fail.',
  ['ngoschema/session.py', 'ngoschema/utils/utils.py'], [('locked counter', 'ngoschema/utils/utils.py:threadsafe_counter'), ('registry by thread or scope', 'ngoschema/session.py:scoped_session')],
  ['identity and identifiers of sessions seen by each thread'])
p('C13', 'A memory repository holds exactly the last object committed under each key',
  'After any sequence of commits, a repository of several objects holds one object per key, the last one committed under it, at the position of the first; membership, resolution by key through the repository and through its session, queries and iteration over its content all agree. '
  'An object committed without integer key gets one that no object of the repository has. '
  'A commit that fails leaves the repository as it was, and repositories and sessions do not see each other\'s objects unless bound together.',
  ['histories', 'fault_sequences'],
  'every history of commits (new keys, existing keys, missing keys, composite keys, invalid objects, objects whose key cannot be computed at that moment) over several repositories bound to several sessions',
  'No test commits to a repository; disagreement between catalog and content needs replacements, automatic keys and failures in one history.',
  ['ngoschema/repositories/memory_repository.py', 'ngoschema/protocols/repository.py', 'ngoschema/session.py', 'ngoschema/models/instances.py'], [('catalog by identity and content list', 'ngoschema/repositories/memory_repository.py:MemoryRepository._commit')],
  ['membership, resolution, queries and content against a reference dictionary'])
p('C14', 'The result of a query does not depend on how and when others are consumed',
  'A query and the queries derived from it by filtering, excluding, ordering, reversing or combining each give the same results as evaluating them alone on the source, in whatever order they are created, iterated, counted, indexed, partly consumed or abandoned, and as many times as they are asked. '
  'An error raised by the source, or by a comparison, in the middle of a consumption is reported and the next consumption gives the complete results. '
  'Consuming a query changes neither its source nor the other queries.',
  ['histories', 'schedules', 'fault_sequences'],
  'every tree of derived queries over re-iterable sources of mappings x every interleaving of partial consumptions of their iterators x a failure of the source or of an element at any step',
  'The tests consume each query once, at once, from a list that never fails.',
  ['ngoschema/query.py', 'ngoschema/utils/utils.py'], [('selection evaluated again for each consumption', 'ngoschema/query.py:_Selection'), ('cache of results', 'ngoschema/query.py:Query.result_cache')],
  ['sequences given by each query against a reference evaluation'])
p('C15', 'Operations give back the process-wide state they borrow',
  'Whatever fails, nests or interleaves inside it, temporarily using an instance as one of its parent classes gives the instance its own class back at the end, working in another directory gives the previous one back, and evaluating numbers leaves the decimal context (precision, rounding, flags raised) of the calling thread as it was. '
  'The precision used for a number is the one of its type, whatever other threads or an enclosing evaluation use.',
  ['fault_sequences', 'schedules', 'histories'],
  'every nesting of casts, directory changes and evaluations with an exception raised at any depth x every interleaving of threads evaluating numbers of different precisions',
  'The tests cast and evaluate once, without failure and in one thread.',
  ['ngoschema/utils/utils.py', 'ngoschema/types/numerics.py'], [('class given back in a finally clause', 'ngoschema/utils/utils.py:casted_as'), ('local decimal context', 'ngoschema/types/numerics.py:Number._evaluate')],
  ['class of the instance', 'working directory', 'decimal context of each thread', 'results of evaluations'])
p('C16', 'Memoised results are computed once per instance and arguments, never wrong',
  'A memoised property or method computes its result once per instance (and arguments) and then gives that same result, until it is reset; one instance never gets the result of another. '
  'A computation that fails raises, stores nothing, and is attempted again at the next use. '
  'Memoising a result does not keep the instance alive.',
  ['histories', 'fault_sequences'],
  'every history of uses, resets and releases over several instances and arguments, hash collisions included x a failure of any computation',
  'No test covers the memoising decorators.',
  ['ngoschema/decorators.py'], [('result kept in the instance', 'ngoschema/decorators.py:memoized_property'), ('cache kept in the instance around a weak reference', 'ngoschema/decorators.py:memoized_method')],
  ['number of computations', 'values returned', 'weak references after release'])
p('C17', 'Dates taken from the clock are read once and stay',
  'A date, time or date-time property given as now or today takes the UTC clock value at its first evaluation, and keeps this value at each later read, however the clock advances or jumps, until it is assigned again. '
  'Values taken by one evaluation never mix two instants: a date-time is one instant of the clock between the beginning and the end of the evaluation, and a date is the date of such an instant, also when midnight or a jump falls in between.',
  ['schedules', 'histories', 'fault_sequences'],
  'every history of assignments, reads and re-assignments x any advance, stall, jump forwards or backwards of the clock at any reading of it, midnight and year ends included',
  'The tests use the real clock, which does not cross midnight or jump while they run.',
  ['ngoschema/types/datetime.py', CP], [('single reading of the clock by conversion', 'ngoschema/types/datetime.py'), ('evaluated value kept', CP + ':__getitem__')],
  ['values of properties against the log of clock readings'])
p('C18', 'Translating names and identifiers depends on current registrations only',
  'Translating an identifier to a canonical name, or a canonical name to an identifier, gives the answer a manager would give that had just been created with the namespaces and documents registered now, whatever was translated before. '
  'Adding a namespace, changing the current one, registering or unregistering a document takes effect at the next translation, and a manager\'s own namespaces are not visible to others.',
  ['histories'],
  'every history of namespace additions, changes of the current namespace, document registrations and unregistrations, and translations in both directions, absolute and relative, over several managers',
  'The tests translate a few names with the bundled namespaces; stale answers need a registration after a translation.',
  ['ngoschema/managers/namespace_manager.py', UR], [('names looked up in the current registrations', 'ngoschema/managers/namespace_manager.py:NamespaceManager._find_ns_by_cname')],
  ['answers of the used manager against those of a fresh one'])
p('C19', 'Threads working on their own objects do not disturb each other',
  'Threads that create, assign, read, validate and serialise objects of the same classes, each on objects of its own, or convert values with the same types, get the results they would get running alone. '
  'No interleaving makes one of these operations fail or block, or lets a value of one thread appear in an object of another.',
  ['schedules'],
  'every interleaving, at source line granularity, of two to four threads running histories of creations, assignments, reads of computed properties, array changes and serialisations on separate objects of shared classes',
  'No test starts a thread, and the per-class caches filled on first use are only exposed by a switch at the right line.',
  [OP, CP, 'ngoschema/types/type.py', 'ngoschema/utils/jinja2.py', 'ngoschema/protocols/type_protocol.py'], [('values kept in the instances, classes only caching what is derived from the schema', OP + ':_items_type, _properties_raw_trans')],
  ['results of each thread against the same history run alone'])
p('C20', 'Serialising an object and loading the result gives an equal object',
  'For every schema and every valid object, serialising the object and building a new one from the result gives an object with the same property values.',
  ['inputs', 'programs'], 'every schema and every valid value',
  'The tests round-trip a handful of objects.',
  ['ngoschema/protocols/serializer.py', OP, 'ngoschema/types/object.py'], [('serialisation by type', OP + ':ObjectProtocol._serialize')], ['values before and after'])
p('C21', 'Values accepted by a type satisfy its schema',
  'A value converted and validated by a type satisfies the JSON schema of the type, and a value that satisfies it is accepted.',
  ['inputs', 'programs'], 'every schema and every value', 'The tests try a few values by keyword.',
  ['ngoschema/types/type.py', 'ngoschema/protocols/validator.py', 'ngoschema/managers/jsch_validators.py'], [('validation by jsonschema', 'ngoschema/protocols/validator.py')], ['acceptance or rejection'])
p('C22', 'A class has the properties of all the schemas it extends',
  'The class of a schema that extends others has all their properties, with required, read-only and dependency declarations, the closest declaration taking precedence.',
  ['programs'], 'every inheritance graph of schemas', 'The tests build two small hierarchies.',
  [OP, TB], [('merge of the bases', OP + ':ObjectProtocol.build')], ['properties of the class'])
p('C23', 'Values computed across linked objects stay current',
  'A property computed from other objects, the one it refers to, the object it was created in, or the items of its arrays and theirs, shows their current values at each read, whatever the order in which objects are linked, shared between several holders, replaced, removed, and changed, directly or through one of their holders. '
  'An object placed in another stays the same object and computes its own properties from its own values. '
  'A rejected change, an invalid value or a getter that fails is not seen by the objects linked to it once it is over.',
  ['histories', 'fault_sequences', 'configurations'],
  'every history of links, moves, replacements, removals and changes over graphs of objects of one recursive class, with templates, expressions and getters reading through references, arrays and parents x lazy or immediate validation x failing getters and invalid values',
  'No test computes a value through a shared object, and none changes an object after it was read through another one.',
  [OP, CP, AP, 'ngoschema/contexts/object_protocol_context.py', 'ngoschema/types/strings.py', 'ngoschema/utils/jinja2.py'], [('inputs of a computed property found and compared', CP + ':_items_inputs_evaluate, _is_outdated'), ('context of an object placed in another', AP + ':ArrayProtocol.insert')],
  ['values of every computed property after each change, against a model of the graph; identity of the linked objects'])

p('C24', 'What an object shows depends only on its own values',
  'The content and the serialised form of an object, and the text of one with immediate validation, depend only on its class, its current values and the options of the call: they are what a single object would give alone after the same changes, whatever other objects and classes were created, changed, printed or serialised before, with whatever options, and whatever failed in between (values given by getters may be left out of a form without defaults until they are read). '
  'A form that was given keeps its content when the object changes. An object made from described values or from the form of another neither changes them nor changes with them, and the options given to a call are left as they were.',
  ['histories', 'fault_sequences', 'configurations'],
  'every history of creations, changes, presentations and failures over objects of several classes sharing names of properties x options of the presentation x classes with read-only, not serialised, required, aliased, inherited and computed properties, lazy or immediate',
  'Tests print and serialise one object of one class, once, in a fresh process; what one presentation leaves behind only shows in a later one of another object.',
  [OP, CP, AP, 'ngoschema/types/object.py', 'ngoschema/types/collection.py', 'ngoschema/protocols/serializer.py'], [('properties of an object in a text or form', 'ngoschema/types/object.py:ObjectSerializer._print_order'), ('serialised form', OP + ':ObjectProtocol._serialize')],
  ['each presentation, against the one given in a process of its own where only that object and its changes exist; forms, sources and options kept and compared at each step'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
