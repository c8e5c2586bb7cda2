#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The property texts live here so that they are edited in one place."""
import json, os
OCA='oca/src/facade/'
B='semantics/oca-bundle/src/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d['anchors']['observe_at']=observe
    P.append(d)

p('P01','Same OCAfile, same bytes and identifiers, whatever the hash-map order',
  "Building the same OCAfile always yields byte-identical encoded bundles and the same identifiers for the bundle, its capture base, every overlay and every intermediate build step. This must not depend on the process, the machine or the per-process randomisation of hash-map iteration order.",
  ['schedules','programs'],
  "every OCAfile of the bounded command grammar (all overlay kinds, several languages, several attributes) x every iteration order the hash maps can take",
  "Each test process samples one random hash seed per thread; an order-dependent serialisation shows up only under some of the n! orders and only for bundles with several attributes/languages/targets/frames.",
  [B+'state/oca.rs',B+'state/oca/overlay/*.rs',B+'state/oca/capture_base.rs',B+'state/entries.rs'],
  [('keys sorted (BTreeMap) in each serialize_attributes', B+'state/oca/overlay.rs'),('overlays of one kind sorted by identifier when serialised',B+'state/oca.rs serialize_overlays')],
  observe=['encoded bundle bytes','said of bundle, capture base, overlays, build steps'])

p('P02','Built bundles are self-consistent and tampering with one is detected',
  "In every bundle the library builds, each identifier equals the digest recomputed from the content it identifies, every overlay names the capture base it belongs to, and the bundle validator accepts the bundle if its conditions are well formed. If any single value of an encoded bundle is changed afterwards (a leaf value, a key, an identifier, an added or a removed entry), even with the enclosing bundle's own identifier recomputed, then loading it fails, the validator rejects it, or what was loaded is exactly the original bundle (an unknown entry was ignored). An overlay that names no capture base, or another one, is rejected even when every identifier is recomputed.",
  ['programs','inputs'],
  "every bundle built by the bounded command grammar, and every single-point mutation at every position of its JSON tree",
  "Existing tests check two hand-written malformed bundles; they cannot visit every field of every overlay kind.",
  [B+'state/validator.rs',B+'state/oca.rs',B+'state/oca/capture_base.rs',B+'state/oca/overlay.rs'],
  [('identifiers filled bottom-up: capture base, overlays, bundle',B+'state/oca.rs generate_bundle'),('identifier recomputation and capture-base comparison',B+'state/validator.rs validate')],
  observe=['Validator::validate result','SAIDs in encoded JSON'])

p('P03','Encoding a bundle and loading it back loses nothing',
  "Loading the encoded JSON of any built bundle gives a bundle that encodes to exactly the same bytes, carries the same identifiers and still validates. The same holds for single capture bases and overlays, for the combined structural-plus-transformation package, and for a bundle served from storage.",
  ['programs'],
  "every bundle of the bounded command grammar; every overlay kind; packages with 0..2 transformations",
  "Tests load a few fixed JSON documents and never compare the re-encoded bytes across overlay kinds and value shapes.",
  [B+'state/oca.rs',B+'controller.rs',OCA+'bundle.rs'],
  [('typed overlay dispatch on load',B+'state/oca.rs Deserialize for DynOverlay'),('version string and digest on encode','said crate SAD derive')],
  observe=['encode()','load_oca()'])

p('P04','A built bundle contains exactly what its commands say, last write wins',
  "The bundle built from a sequence of ADD and REMOVE commands contains exactly the attributes with the types, the classification and the overlay entries (per attribute and, where applicable, per language, target or frame) those commands define when applied in order: adding another value for the same thing replaces the old one, adding for another attribute, language, target or frame leaves the existing ones alone, and removing an attribute or the classification removes it and every overlay entry of that attribute. Nothing else is added, dropped or altered.",
  ['programs'],
  "every command sequence up to the depth bound over all overlay kinds, two or more attributes, two languages, two values, two targets/frames, compared with an independent reference model",
  "Tests build a few fixed scripts; the space of orders, repetitions and mixed overlay kinds is exponential and needs a model to say what each should produce.",
  [B+'build.rs',B+'state/attribute.rs',B+'state/oca.rs',B+'state/oca/overlay/*.rs'],
  [('command application',B+'build.rs apply_command'),('attribute merge',B+'state/attribute.rs merge'),('overlay generation',B+'state/oca.rs generate_overlays')],
  observe=['encoded bundle JSON'])

p('P05','Ill-formed programs are rejected with an error, well-formed ones are accepted',
  "A program is accepted exactly when every command is meaningful at its position: ADD ATTRIBUTE names no attribute that already exists, REMOVE ATTRIBUTE and REMOVE CLASSIFICATION name something that exists, an overlay command refers only to existing attributes, language codes and character encodings are known ones, META properties do not take the names of the overlay's own fields, and references are valid identifiers or known names. A program that breaks a rule is reported as an error, never as a crash, a hang or a silently different bundle.",
  ['programs'],
  "every command sequence up to the depth bound over an alphabet containing both legal and illegal commands",
  "Tests pin a dozen rule violations; whether acceptance is exact for every order and interplay of add/remove/overlay commands needs exhaustive enumeration against a model.",
  ['semantics/oca-ast/src/validator.rs',B+'build.rs','semantics/oca-file/src/ocafile/mod.rs',OCA+'build.rs'],
  [('command validation while parsing','semantics/oca-ast/src/validator.rs'),('undefined attribute / unknown encoding checks',B+'build.rs apply_command')],
  observe=['Ok/Err of building from an OCAfile'])

p('P06','Extending a stored bundle with FROM equals building it in one go',
  "Building an OCAfile that starts with FROM <identifier of a stored bundle> followed by further commands gives exactly the same bundle, bytes and identifier, as one OCAfile containing the base's commands followed by the same further commands. With no further effective change the bundle, and so its identifier, is the base's own; a FROM that names an unknown bundle is an error.",
  ['programs','histories'],
  "every split point of every command sequence of the bounded grammar",
  "One existing test uses FROM once; the conversion from a finished bundle back to buildable state must be lossless for every overlay kind and combination.",
  [B+'state/oca.rs',B+'build.rs',OCA+'build.rs'],
  [('bundle to buildable state',B+'state/oca.rs From<OCABundle> for OCABox'),('FROM resolution',OCA+'build.rs parse_and_check_base')],
  observe=['bundle SAID/bytes'])

p('P07','Exporting a bundle as an OCAfile and rebuilding it gives the same bundle',
  "The OCAfile generated from any built bundle that has content, and the OCAfile reconstructed from its stored history, both parse and, when built, give a bundle with the same identifier and bytes as the original. This holds for every value the bundle's texts can carry (quotes, escapes, line breaks) and whichever way the bundle was built or loaded.",
  ['programs'],
  "every bundle of the bounded command grammar, both export paths, dereferenced or not",
  "Tests compare generated text for a few overlays against fixed strings; they do not rebuild, and do not cover all overlay kinds or value shapes.",
  [B+'state/oca.rs','semantics/oca-file/src/ocafile/mod.rs',OCA+'fetch.rs',OCA+'build.rs'],
  [('bundle to AST',B+'state/oca.rs to_ast'),('AST to text','semantics/oca-file/src/ocafile/mod.rs generate_from_ast')],
  observe=['parse_oca_bundle_to_ocafile','get_oca_bundle_ocafile'])

p('P08','Commands survive printing as text and serialising as JSON',
  "Parsing an OCAfile, printing the parsed form as an OCAfile and parsing again gives the same commands. Serialising parsed commands (or the whole parsed form) to JSON and reading them back gives the same commands, for every kind of command, overlay, reference, array nesting and value.",
  ['programs','inputs'],
  "every single command of the grammar over the value alphabet, and every sequence up to the depth bound",
  "Round trips are only tested for a few commands; custom (de)serialisers exist for commands, overlay kinds, object kinds, nested types and nested values.",
  ['semantics/oca-ast/src/ast/mod.rs','semantics/oca-ast/src/ast/attributes.rs','semantics/oca-file/src/ocafile/mod.rs','semantics/oca-file/src/ocafile/instructions/*.rs'],
  [('custom serde for commands and nested values','semantics/oca-ast/src/ast/mod.rs'),('text generator','semantics/oca-file/src/ocafile/mod.rs')],
  observe=['OCAAst equality'])

p('P09','Layout, comments and keyword case of an OCAfile do not change its meaning',
  "Blank lines, comment lines, spaces or tabs between arguments and at line ends, line continuations, the case of command keywords and the optional spaces around '=' never change the commands an OCAfile means, nor the bundle it builds. Header lines (name, version, precompiler) are metadata only and text inside a value is never taken for layout, and an error from applying a command, or a syntax error, names the line the command is written on.",
  ['inputs'],
  "every insertion of each layout element at each position of each command of the grammar",
  "Tests contain a handful of layouts; the grammar is whitespace-explicit, so each rule has to admit layout separately.",
  ['semantics/oca-file/src/ocafile.pest','semantics/oca-file/src/ocafile/mod.rs','oca-file/src/ocafile/mod.rs'],
  [('explicit whitespace rules','semantics/oca-file/src/ocafile.pest'),('precompiler dispatch','oca-file/src/ocafile/mod.rs')],
  observe=['parsed commands','error line numbers'])

p('P10','The stored history of a bundle is a complete, replayable chain of steps',
  "After a bundle is built through the facade, its history reads back as a finite, unbroken chain from the first command to the bundle: each step's parent is the previous step's result, and each step's stored result is what replaying the commands up to it produces. For a bundle whose step results were all new to the store, the commands are exactly those that were executed, in order; building anything else afterwards, or repeating or undoing a change, never makes a history cyclic, shorter or unreadable. Reading the history as steps, as an AST or as an OCAfile gives the same commands.",
  ['histories','programs'],
  "every build history up to the bound: independent builds, shared prefixes, FROM extensions, repeated builds, in every order",
  "One test checks the number of steps of one bundle; sharing of steps between bundles and extension of stored ones is untested.",
  [OCA+'build.rs',OCA+'fetch.rs'],
  [('operation record keyed by the result identifier, holding the parent identifier and the command',OCA+'build.rs build_step'),('history walk',OCA+'fetch.rs get_oca_bundle_steps')],
  observe=['get_oca_bundle_steps','get_oca_bundle_ast','get_oca_bundle_ocafile'])

p('P11','Everything that was built stays retrievable, unchanged, under its identifier',
  "After any sequence of builds, every bundle built (including every intermediate step's bundle), every capture base and every overlay of a built bundle can be fetched by its identifier and is identical to what was built, no matter what was built before or after. Asking for an unknown identifier reports an error instead of crashing or returning something else, and does not affect the known ones.",
  ['histories'],
  "every sequence of builds up to the depth bound from a set of overlapping OCAfiles, over each storage backend; queries for all known identifiers and for unknown ones",
  "Tests fetch one bundle after one build.",
  [OCA+'build.rs',OCA+'fetch.rs','oca/src/data_storage.rs'],
  [('content written under its own identifier',OCA+'build.rs build_step'),('lookup by identifier',OCA+'fetch.rs get_oca_bundle, get_oca_objects')],
  observe=['get_oca_bundle','get_oca_objects'])

p('P12','The relation graph is symmetric, complete and never loses a relation',
  "After any sequence of builds, exploring a bundle lists exactly its capture base and its overlays, exploring a capture base lists exactly the bundles that use it and the overlays bound to it, and exploring an overlay lists exactly its capture base and the bundles that contain it, each with its right kind. So the relation is symmetric, earlier relations are never lost, and unknown identifiers have none.",
  ['histories'],
  "every sequence of builds up to the depth bound from OCAfiles that share capture bases and overlays",
  "The existing test looks at one bundle after one build; the merge with earlier records only matters for shared objects.",
  [OCA+'explore.rs','semantics/oca-ast/src/ast/mod.rs'],
  [('read-merge-write of relation records',OCA+'explore.rs add_relations'),('length-prefixed binary record',OCA+'explore.rs From<Relationship>'),('object kind byte codes','semantics/oca-ast/src/ast/mod.rs')],
  observe=['explore'])

p('P13','A build that fails leaves storage, indexes and names untouched',
  "If building an OCAfile fails for any reason in the OCAfile itself (syntax, unknown reference, unknown base, invalid command at any position), nothing observable changes: stored bundles, objects, history, relations, names, listings and search results are exactly what they were, and later builds behave as if the failed one had not happened.",
  ['histories','programs'],
  "every history of successful builds followed by every failing OCAfile (an error of each kind at each position), with and without a name header",
  "Tests only assert that an error is returned.",
  [OCA+'build.rs','oca/src/local_references.rs'],
  [('validation completes before any write',OCA+'build.rs build_from_ocafile'),('name saved only after a successful build',OCA+'build.rs oca_ast_to_oca_build_with_references')],
  observe=['all storage namespaces','SQLite index contents','public queries'])

p('P14','Building the same thing again changes nothing',
  "Building an OCAfile that was already built, immediately or after other builds, returns the same bundle and leaves all stored data, relations, listings, totals and search results as they were. The order in which distinct, independent OCAfiles are built does not change the final observable contents either.",
  ['histories'],
  "every sequence of builds up to the depth bound compared with its de-duplicated form and with every permutation",
  "No test builds twice or permutes builds.",
  [OCA+'build.rs',OCA+'explore.rs','oca/src/repositories/*.rs'],
  [('content-addressed keys',OCA+'build.rs'),('insert-once index rows','oca/src/repositories')],
  observe=['all storage namespaces','listings, search and explore results'])

p('P15','A named reference means exactly the bundle last built under that name',
  "An OCAfile that refers to another bundle by name (as an attribute type, at any array depth, or as a link target) builds exactly the same bundle as the one in which the name is replaced by the identifier last saved for it. A name that is not known is an error, a name is bound only by a successful build carrying that name header, rebinding a name affects only later builds, and external reference tables are honoured the same way without touching the facade's own.",
  ['histories','programs'],
  "every sequence of named builds, re-bindings and uses up to the depth bound; every position of a reference in a type",
  "Tests use one name once, at array depth 0 or 1.",
  ['oca/src/local_references.rs',OCA+'build.rs'],
  [('replacement pass over the AST','oca/src/local_references.rs replace_refn_with_refs'),('name table namespace',OCA+'build.rs References for Box<dyn DataStorage>')],
  observe=['bundle bytes','fetch_all_refs'])

p('P16','Fetching with dependencies returns the whole transitive closure',
  "Fetching a bundle with dependencies returns the bundle and, besides it, every bundle it references through its attribute types, directly or through other bundles and at any array depth, and nothing else; a missing dependency is an error. Without dependencies it returns just the bundle.",
  ['histories','programs'],
  "every acyclic reference graph over the bounded number of bundles, with every kind of reference position, and every missing node",
  "The existing test has a two-level graph without arrays of arrays, sharing or missing nodes.",
  [OCA+'fetch.rs'],
  [('recursive retrieval',OCA+'fetch.rs get_oca_bundle, retrive_all_references')],
  observe=['get_oca_bundle(said, true)'])

p('P17','Every storage backend is a per-namespace map with durable last-write-wins',
  "For every storage backend, reading a key in a namespace returns exactly the last value written to that key in that namespace (or nothing if none was), listing a namespace returns exactly its keys and values, and operations on other keys or namespaces never interfere. For the persistent backends this still holds after reopening the storage, and clones of a handle share its data (a clone of the in-memory storage is a copy); no key, whatever its characters, reaches outside the storage; a storage that was not opened answers with an error. A facade gives the same bundles and answers over every backend.",
  ['histories','configurations'],
  "every operation sequence (insert/get/list/clone/reopen) up to the depth bound over colliding keys, prefix-related keys, binary and empty values, for each backend",
  "There are no storage tests beyond opening one.",
  ['oca/src/data_storage.rs','semantics/oca-dag/src/data_storage.rs'],
  [('namespace to tree / directory / inner map','oca/src/data_storage.rs')],
  observe=['DataStorage::get/get_all/insert'])

p('P18','A crash during a build never corrupts the store and a rebuild completes it',
  "A build that returned survives the end of the process. If the process stops at any point while a bundle is being stored, then after reopening, everything built before is still retrievable, related and listed as before; nothing is listed, searchable or reachable that cannot be retrieved; every query answers without crashing; and building the same OCAfile again leaves the store exactly as if no crash had happened.",
  ['crash_points','histories'],
  "every prefix of the sequence of storage and index writes of a build, in every short history of builds, then every query, then a rebuild",
  "Tests never interrupt a build.",
  [OCA+'build.rs',OCA+'explore.rs',OCA+'fetch.rs','oca/src/repositories/*.rs'],
  [('order of writes: content, history, relations, models, index',OCA+'build.rs build')],
  observe=['storage write log','all public queries after reopening'])

p('P19','Search and listings are exact, and pages partition the result',
  "A search for a word of three or more letters returns exactly the stored bundles whose name or description, in any language, contains it, whatever the case of its letters, each once, with the total equal to their number; listings return exactly the distinct bundles and capture bases built. For every page size, the pages taken in order contain every result exactly once, the better scored first, and report the same total, and any query text whatsoever is answered without crashing.",
  ['histories','inputs'],
  "every small catalogue of bundles x every query word/language filter x every page size and page number, and every short query string over the special-character alphabet",
  "One test searches once on the first page.",
  [OCA+'fetch.rs','oca/src/repositories/oca_bundle_fts_repo.rs','oca/src/repositories/oca_bundle_cache_repo.rs','oca/src/repositories/capture_base_cache_repo.rs'],
  [('full-text index query','oca/src/repositories/oca_bundle_fts_repo.rs'),('limit/offset paging','oca/src/repositories')],
  observe=['search_oca_bundle','fetch_all_oca_bundle','fetch_all_capture_base'])

p('P20','Translation enforcement accepts exactly the completely translated bundles',
  "With a set of enforced languages, validation succeeds exactly when, for each translatable kind of overlay present (meta, entry, information, label), the languages present are exactly the enforced ones and every meta field or attribute translated in one language is translated in all; each gap is reported for its language and field. Without enforced languages translations are not restricted.",
  ['inputs','configurations'],
  "every assignment of translations to (overlay kind, language, field/attribute) within the bound x every enforced-language set",
  "Tests check a few fixed combinations out of the 2^n matrix.",
  [B+'state/validator.rs'],
  [('set comparison of languages and fields',B+'state/validator.rs validate_meta, validate_translations')],
  observe=['Validator::validate result'])

p('P21','A condition evaluates to its meaning over the values it names',
  "Evaluating an attribute's condition gives exactly the truth value of the written expression with every ${name} replaced by the value supplied for that attribute, however many dependencies it names, in whichever order and however often. A missing dependency value, a self-dependency, a non-boolean or malformed expression is reported as an error; evaluation never crashes and always ends; and the dependencies stored in the bundle let the original condition be restored exactly.",
  ['inputs','programs'],
  "every expression of the bounded condition grammar over up to three (or, for index widths, twelve) dependencies x every assignment of values, including missing ones",
  "Tests evaluate three fixed conditions.",
  [B+'state/oca/overlay/conditional.rs',B+'state/oca.rs',B+'state/validator.rs'],
  [('names replaced by dependency indexes and back',B+'state/oca/overlay/conditional.rs set_condition, check_condition')],
  observe=['check_condition','validator verdict','conditional overlay JSON'])

p('P22','No OCAfile text whatsoever crashes parsing, building or storing',
  "For any text, parsing and building an OCAfile (semantic or transformation, with or without header lines) returns a result or an error value and never aborts, and a failed attempt leaves the library usable.",
  ['inputs'],
  "every token sequence up to the length bound over an alphabet of all keywords, names, separators, valid and invalid values; every single-token edit of valid files",
  "Tests contain a few malformed instructions.",
  ['semantics/oca-file/src/ocafile/*.rs','semantics/oca-file/src/ocafile/instructions/*.rs','transformation/oca-file/src/ocafile/*.rs','oca-file/src/ocafile/mod.rs',B+'build.rs',OCA+'build.rs'],
  [('grammar','semantics/oca-file/src/ocafile.pest'),('error values instead of unwraps',B+'build.rs')],
  observe=['Result of parse/build entry points'])

p('P23','Loading untrusted bundle JSON never crashes and accepts only well-typed bundles',
  "Loading any JSON document as a bundle, package, transformation, capture base, overlay or parsed OCAfile returns the object or an error and never aborts, and so does every later use of what was loaded: validating, converting for further building, building upon, exporting, encoding. A document that is accepted and validated was loaded as what it says: no entry its type has is lost, replaced or made up.",
  ['inputs'],
  "every single-point structural mutation (wrong type, missing, null, empty, extra, renamed) at every position of the JSON of bundles that contain every overlay kind",
  "Tests load only well-formed documents and two with wrong digests.",
  [B+'controller.rs',B+'state/oca.rs',B+'state/validator.rs','semantics/oca-ast/src/ast/mod.rs','semantics/oca-ast/src/ast/attributes.rs'],
  [('typed deserialisation',B+'state/oca.rs deserialize_overlays'),('validator',B+'state/validator.rs')],
  observe=['load_oca','Validator::validate','OCABox::from','to_ast'])

p('P24','A transformation is exactly the renames and links written in its file',
  "Building a transformation file yields a transformation with the written source and target and exactly the attribute pairs its RENAME and LINK commands define, the last one winning; building it again gives the same identifier, different content gives different identifiers, and loading its JSON back loses nothing. The parsed file names, for each command, the line it is written on. Blank lines, comments, line breaks after a backslash, the case of keywords and the position of the header lines make no difference. A file without source or target, or with an invalid command, is an error; a syntax error in a command names the line it is on.",
  ['programs'],
  "every transformation file up to the depth bound over renames, links, repeated keys, missing or repeated headers",
  "Tests parse one or two fixed files.",
  ['transformation/transformation-file/src/build.rs','transformation/oca-file/src/ocafile/mod.rs','transformation/ast/src/ast/mod.rs'],
  [('command application','transformation/transformation-file/src/build.rs from_ast'),('self-addressing identifier','transformation/transformation-file/src/state/mod.rs')],
  observe=['Transformation JSON and SAID'])

p('P25','The core model links every command, capture base and overlay to its parent',
  "For every build, the stored core model holds for each step the command under its digest, a record for the resulting bundle naming its parent bundle, its capture base and exactly its overlays, and a record for the capture base or overlay the command addresses, naming that object's previous version and the command, as it was first reached. Following parents from any of these objects reaches a first version without gaps or cycles. The records are the same on every build of the same OCAfile.",
  ['programs','schedules'],
  "every command sequence up to the depth bound, under every hash-map order",
  "One test snapshots the model of one file.",
  ['semantics/oca-dag/src/lib.rs',OCA+'build.rs'],
  [('model construction per step','semantics/oca-dag/src/lib.rs build_core_db_model')],
  observe=['core_model namespace','build_core_db_model result'])

p('P26','Concurrent builders over one store end as if they had run one after another',
  "When several facades share one store and build at the same time, nothing is lost or damaged, whatever the interleaving of their storage operations: every bundle, object, history record, name, relation and index entry ends as building the same OCAfiles one after another, in some order, would leave it. A reader running at the same time never crashes and never sees a listed bundle, or a related object, it cannot fetch.",
  ['schedules'],
  "every interleaving, up to the preemption bound, of the storage operations of two facades building OCAfiles that share objects, plus a reader",
  "No test has two facades.",
  [OCA+'build.rs',OCA+'explore.rs','oca/src/data_storage.rs'],
  [('content-addressed idempotent writes',OCA+'build.rs'),('relation records read, merged and written back',OCA+'explore.rs add_relations')],
  observe=['final contents of all namespaces'])

p('P27','The version graph records every parent and child exactly, in order',
  "In the version graph, every node's ancestor is the parent it was last added under, and a parent's descendants are exactly the nodes added under it, in the order added; an addition that is refused changes nothing, and adding under one parent never disturbs another's records. Building an OCAfile step by step over a version store gives the bundle a direct build gives, a FROM command continuing from the stored bundle it names wherever it stands, every step's bundle can be loaded, and every step's record names its parent and its operation exactly.",
  ['histories'],
  "every sequence of node additions up to the depth bound over a small set of identifiers, including identifiers and operations of boundary length",
  "Tests add two nodes.",
  ['semantics/oca-dag/src/versioning/mod.rs','semantics/oca-dag/src/versioning/ocafile.rs','semantics/oca-dag/src/versioning/bundle.rs'],
  [('length-prefixed records','semantics/oca-dag/src/versioning/mod.rs')],
  observe=['upscending/downscending records','build_oca result'])

out=os.path.join(os.path.dirname(__file__),'..','properties.jsonl')
p('P28','A bundle\'s identifier depends on its content, not on how it was written',
  "Two OCAfiles that define the same content give byte-identical bundles with the same identifiers, whatever the order of their commands, the grouping of attributes and values into commands, and the values set and replaced or attributes added and removed on the way. Two OCAfiles that define different content give different identifiers.",
  ['programs'],
  "all programs of the bounded command grammar: every order and grouping of commuting commands, every pair of programs with the same and with different content",
  "A test fixes one order of one program; whether an identifier depends on insertion order shows only when many orders of the same content are compared.",
  [B+'state/oca.rs',B+'state/oca/capture_base.rs',B+'state/oca/overlay/*.rs',B+'state/entry_codes.rs',B+'state/entries.rs'],
  [('attributes, flagged attributes and codes are sorted when serialised',B+'state/oca/capture_base.rs'),('overlays of a kind sorted by identifier',B+'state/oca.rs serialize_overlays')],
  observe=['said of the bundle','encoded bytes'])

p('P29','A storage that fails is reported and loses nothing',
  "If a storage operation or a file system call, reading or changing, answers with an error at any point of a build, once or from then on, the build reports a failure, or it has stored everything exactly as if nothing had failed. What was built before stays retrievable, related, listed and searchable; nothing is listed or related that cannot be retrieved; and building the same OCAfile again, by the same or a new facade, leaves the store exactly as if nothing had failed. A query whose storage fails never presents a wrong answer: it gives the right one or reports an error (exploring, which cannot report one, may find nothing); and it leaves the facade answering every query as before.",
  ['fault_sequences','histories'],
  "every storage operation and every file system call of every build in the bounded histories, failing once or persistently; every storage operation and every reading system call of every query",
  "No test has a storage that fails; a swallowed error shows only when the very operation whose result is dropped is the one that fails.",
  [OCA+'build.rs',OCA+'explore.rs',OCA+'fetch.rs','oca/src/repositories/*.rs','oca/src/data_storage.rs'],
  [('results of storage operations are passed on',OCA+'build.rs build, build_step, build_models'),('relations are read before they are merged and written back',OCA+'explore.rs add_relations'),('index rows inserted unless present','oca/src/repositories/*.rs insert')],
  observe=['result of the build','all queries','contents of all namespaces'])

p('P30','Bundles assembled through the programming interface say what the calls said',
  "After any sequence of calls on an OCABox and its attributes - adding an attribute, new or merged into the one already there, setting any property of it, removing attributes, classification, metadata, an attribute mapping - the generated bundle has exactly the content the calls describe: a later call replaces what it sets (the same property, language, link target, frame and framing) and leaves everything else, in any language, with a two-letter code or without. Generating again gives the same identifier; the encoded bundle loads to an equal one; and a box made of the bundle, or of the loaded one, generates the same bundle.",
  ['inputs','histories'],
  "every sequence of calls of the interface with well-formed arguments, where every attribute has a type",
  "Tests call a few setters once; what a merge drops, which overlays two languages or frames share and what is lost when a bundle becomes a box again needs combinations of calls.",
  [B+'state/oca.rs',B+'state/attribute.rs',B+'state/oca/overlay/*.rs'],
  [('one overlay per kind, language, target and frame',B+'state/oca.rs generate_overlays'),('what a merge replaces and what it adds',B+'state/attribute.rs merge'),('everything in a bundle is taken into the box',B+'state/oca.rs From<OCABundle> for OCABox')],
  observe=['content of the generated bundle','its identifier','the encoded form'])

with open(out,'w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
print(len(P))
