"""Records of the properties: written here, published by tools/publish.py.

R(id, title, statement, over, text, why, files, mechanism, observe, design, level)
"""
RECORDS = []


def R(id, title, statement, over, text, why, files, mechanism, observe, design, level="model_checking", note=None, state=None):
    RECORDS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                        mechanism=mechanism, observe=observe, design=design, level=level, note=note, state=state or []))


OBJ = "ocfl/object.py"
NV = "ocfl/new_version.py"
INV = "ocfl/inventory.py"
VAL = "ocfl/validator.py"
IVAL = "ocfl/inventory_validator.py"
ROOT = "ocfl/storage_root.py"
FSW = "ocfl/fsw.py"

R("L01", "Every version gives back exactly the files that were put in",
  "After any sequence of creations, builds and updates, extracting any version of an OCFL object yields exactly the files (logical paths and "
  "bytes) of the source that version was made from, no more and no fewer. Extracting a single file of any version yields its bytes.",
  ["histories", "inputs", "configurations"],
  "All histories of source trees up to the bound, with every combination of digest algorithm, content path normalization, forward delta, "
  "deduplication, content directory and specification version; contents around the copy chunk size; odd file names.",
  "Tests extract a few fixture objects and a handful of hand-built updates with default settings; they do not combine settings, histories and contents.",
  [OBJ, NV, INV], [("copy of new content and state map", "ocfl/new_version.py NewVersion.add, _add_content"), ("extraction", "ocfl/object.py Object.extract, _extract_file"),
                   ("history writing", "ocfl/object.py create, build, add_version_with_content")], ["Object.extract", "Object.extract_file"],
  "Enumerates all histories of 1-2 versions (thorough: 3) over six source trees x settings x route (create+update, build) x backend (local, in-memory), "
  "extracts every version and every file and compares byte for byte with the source map. Contents at sizes around the chunk size are enumerated separately.")
R("L02", "Whatever the library has written is a valid OCFL object",
  "Every object that the library has finished writing, by any sequence of operations with any settings, satisfies the OCFL specification: its declaration, "
  "inventories, sidecars, version directories, content files, digests and fixity all agree.",
  ["histories", "configurations"],
  "All operation sequences up to the bounded depth over the alphabet of creations, builds, updates, metadata-only versions and edits, from several initial objects.",
  "Tests validate some of the written objects with the library's own validator, after one or two operations; an error that writer and validator share is invisible to them.",
  [OBJ, NV, INV], [("inventory construction", "ocfl/new_version.py, ocfl/inventory.py"), ("inventory and sidecar writing", "ocfl/object.py write_inventory_and_sidecar")],
  ["files of the object on storage", "Object.validate"],
  "Breadth first search over real operations on an in-memory filesystem, deduplicated on (object tree, model); each state is judged by the library's validator and by an "
  "independent validator written from the specification (mc/oracle.py).")
R("L03", "Adding a version never changes or loses the versions that are there",
  "Updating an object leaves every file of the earlier versions byte for byte as it was, and the logical state, content and metadata of every earlier version that the new "
  "inventory records are those recorded before. This includes objects that other software wrote, with any layout of content, padding, digest case or older specification version.",
  ["histories", "inputs"],
  "All operation sequences up to the bounded depth from objects written by the library and objects written independently with unusual but valid features.",
  "Tests update fixtures once and look at the new version; none compares everything that was there before.",
  [OBJ, NV, INV], [("new version built on a copy of the inventory", "ocfl/new_version.py NewVersion.next_version"), ("version directory written before root inventory", "ocfl/object.py write_new_version")],
  ["files below version directories", "versions block of the root inventory"],
  "Breadth first search as in L02 but from objects with unusual features; on every transition all earlier version files and all earlier version states (resolved to bytes) and metadata are compared.")
R("L04", "Editing a new version acts like editing a map from path to content",
  "A sequence of add, delete and rename operations on a new version succeeds or is refused, and changes the state of that version, exactly as the same operations on a plain map from logical path to "
  "content do; a refused edit changes nothing. What is then written out has exactly that state and is a valid object.",
  ["histories"],
  "All sequences of edits up to the bounded depth over an alphabet of sources and of existing, new, nested and malformed logical and content paths, with and without forward delta and deduplication.",
  "Tests make a handful of edits in fixed order; interactions (rename onto, delete then add the same content, last copy deleted) are not reached.",
  [NV, INV], [("edit operations", "ocfl/new_version.py add, delete, rename"), ("manifest and state maintenance", "ocfl/inventory.py add_file, add_fixity_data, delete_logical_path")],
  ["NewVersion.add/delete/rename", "written object"],
  "Breadth first search over edit sequences on the real NewVersion, deduplicated on its whole content; a dict is the reference model for every operation, and every distinct state is written, validated and read back.")
R("L05", "Content is stored as the delta, dedupe and normalization settings say",
  "With forward delta content already in the object is not stored again, and without it is; with deduplication one copy per version of each content is stored, and without it one per path. Every stored file lies in the content "
  "directory of its version at the path that the chosen normalization gives, and no two contents share a stored path.",
  ["histories", "configurations"],
  "All pairs of source trees x all combinations of forward delta, deduplication, normalization, digest and content directory x route.",
  "Tests check one or two of the settings on one example each.",
  [NV, INV, "ocfl/object_utils.py"], [("content path choice", "ocfl/new_version.py _map_filepath"), ("delta and dedupe", "ocfl/new_version.py add, ocfl/inventory.py")],
  ["stored files and manifest"],
  "All 1-2 version histories (thorough 3) over six sources x all settings x create/update/build; the set of stored files is compared with an independent account.")
R("L06", "Digest algorithm and fixity settings apply to the whole object, correctly",
  "After any operation that sets or changes the digest algorithm or the fixity algorithms, every digest in the manifest, in the state of each version, in the fixity block and in the sidecar is the digest of the bytes it stands for by "
  "the algorithm named, and content of all versions remains reachable.",
  ["histories", "configurations"],
  "All sequences up to the bounded depth of operations that switch between digest algorithms and sets of fixity algorithms.",
  "Tests use sha512, and sha256 occasionally; switches in a history are not combined with fixity and edits.",
  [NV, INV, "ocfl/digest.py"], [("conversion of digests", "ocfl/inventory.py, ocfl/new_version.py"), ("sidecar name and content", "ocfl/object.py write_inventory_and_sidecar")],
  ["root and version inventories", "sidecars"],
  "Breadth first search over operation sequences; in every state all digests are recalculated with hashlib.")
R("L07", "Version numbers go up by one, keep zero padding, and never overflow it",
  "The next version of an object has the next number in the same form (padded to the same width, or not), an update that would need more digits than the padding has is refused without effect, and only directories whose whole name is a "
  "version number in a consistent sequence from 1 are taken as versions.",
  ["inputs", "histories"],
  "All version names over a small alphabet up to the bounded length, all numbers to 99999 in all paddings, all sets of source directory names up to the bound, and updates of objects of each padding up to its limit.",
  "Tests use v1, v2 and v3 and a single padded fixture.",
  [OBJ, "ocfl/object_utils.py", INV], [("parse and next version", "ocfl/object_utils.py"), ("source version directories", "ocfl/object.py object_files, build")],
  ["version directories written", "head of inventory", "functions on version directory names"],
  "Enumerates names, numbers, sets of source directories and objects with padding, against an independent definition; updates are run on real objects.")
R("L08", "A dry run predicts what is written, and writes nothing",
  "Creating or building without a destination gives the very inventory that the same call with a destination writes, and has no effect on storage. An update asked to stop if there is no difference does so exactly when the state would be that of "
  "the version before.",
  ["histories", "configurations"],
  "All sources and source histories up to the bound x settings; all pairs of states for updates without difference.",
  "Tests look at one dry run and at one update without difference.",
  [OBJ, NV], [("dry run", "ocfl/object.py create, build"), ("comparison with previous version", "ocfl/new_version.py diff_with_previous")], ["returned inventory", "storage"],
  "Runs each call with and without a destination with recorded effects and compares inventories; all ordered pairs of states for abort_if_no_difference against equality of the source maps.")
R("L09", "Version metadata given by any route is recorded and given back",
  "The created time, message and user name and address given for a version by any route (create, update, build, edited version, command line, metadata file) are exactly those in its inventories and those returned when the version is extracted; "
  "what was not given is absent, and a created time is always recorded.",
  ["inputs", "configurations"],
  "All combinations of absent, empty, plain and unusual values for the four fields x every route.",
  "Tests check single fields on single routes.",
  [OBJ, NV, "ocfl/version_metadata.py", "ocfl/command_line_utils.py"], [("metadata to and from inventory", "ocfl/version_metadata.py"), ("command line arguments", "ocfl/command_line_utils.py")],
  ["versions block of inventories", "value returned by Object.extract"],
  "Full product of field values x routes; the written inventories and the values given back are compared with those given.")
R("L10", "An operation that is refused leaves everything as it was",
  "An operation on an object that raises an error because of its arguments or because of the state of the object or source leaves every file of object, source and destination as it was before, and creates nothing.",
  ["inputs", "histories"],
  "All combinations of operation, reason for refusal, and object (good and with one of many defects).",
  "Tests check that exceptions are raised, not that nothing was changed.",
  [OBJ, NV], [("checks before effects", "ocfl/object.py create, build, add_version_with_content, extract"), ("new version prepared in memory", "ocfl/new_version.py")],
  ["whole filesystem before and after"],
  "Product of operations x objects with defects x reasons for refusal, comparing the whole in-memory and local filesystem before and after; operations that must succeed are included as controls.")
R("L11", "The order in which storage lists directories changes nothing",
  "The inventory and files written, the verdict and errors of validation, and the objects listed do not depend on the order in which the filesystem returns directory entries.",
  ["schedules", "configurations"],
  "All permutations of the first names of each directory applied throughout, and each single listing reversed on its own, for every scenario.",
  "Tests run on one filesystem with one listing order.",
  [OBJ, FSW, VAL, ROOT], [("sorted walks", "ocfl/fsw.py, ocfl/new_version.py")], ["inventory written", "verdict", "list of objects"],
  "The in-memory filesystem returns listings in the order the explorer chooses; results of each scenario under every order are compared with those under the default order.")
R("L12", "Operations write only where they are meant to; reading writes nothing",
  "Validation, extraction, listing, inspection and dry runs have no effect on the object, root or source; creation and update have effects only within the object, and within it only on new files and the root inventory and its sidecar.",
  ["histories", "inputs"],
  "Every operation of the library on each of a set of good and damaged objects and roots, with every primitive filesystem effect recorded.",
  "Tests look at results, not at effects.",
  [OBJ, VAL, ROOT, FSW], [("read only opening", "ocfl/fsw.py"), ("writes", "ocfl/object.py write_new_version")], ["recorded filesystem effects"],
  "Each operation runs on the instrumented filesystem that records every primitive effect; each effect must be under the paths allowed for that operation. Repeated on the local filesystem by comparing trees.")
R("C01", "An update stopped at any point loses nothing and is never mistaken for complete",
  "If the process stops at any point of an update, all earlier versions are intact on storage, the object is reported valid only if it is exactly the object before or after the update, and whatever inventory is readable refers only to content that is there. "
  "Trying the update again either is refused without change or completes properly.",
  ["crash_points", "histories"],
  "Every prefix of the primitive effects of the update, and every write cut at several lengths, for all combinations of objects and updates in the alphabet.",
  "No test stops an operation part way.",
  [OBJ, NV, FSW], [("content, then version inventory, then root inventory", "ocfl/object.py write_new_version, write_inventory_and_sidecar"), ("new version directory has to be new", "ocfl/object.py write_new_version")],
  ["object tree after the crash", "Object.validate", "Object.extract"],
  "The update runs once on the recording filesystem; the state after every prefix of its effects and after torn writes is rebuilt and examined: earlier versions, verdict, references, extraction, and a second attempt with the real code.",
  level="fault_enumeration")
R("C02", "Creation stopped at any point is never mistaken for a complete object",
  "If the process stops at any point of the creation or build of an object, what is there is not reported valid and can't be extracted unless it is complete, its inventory is not written before what it refers to, and a second attempt does not overwrite it.",
  ["crash_points", "configurations"],
  "Every prefix of the primitive effects of creation and of build, and every write cut at several lengths, for sources x settings.",
  "No test stops an operation part way.",
  [OBJ, NV, FSW], [("order of writing", "ocfl/object.py create, build")], ["object tree after the crash", "Object.validate", "Object.create"],
  "As C01 for create() and build() of sources and histories x settings.", level="fault_enumeration")
R("C03", "An input/output error is reported, never taken for success or for validity",
  "If storage reports an error at any point of an operation, the operation ends with an error or a verdict of invalid, or with the very result it has without the error; it never reports success for something incomplete, never calls "
  "a damaged object valid, and never loses earlier versions. Reads that return less data than asked for change nothing.",
  ["crash_points", "histories", "inputs"],
  "Every primitive filesystem operation of every writing and reading operation in the alphabet as the place of the error, once or from then on, for all objects in the set.",
  "No test makes the filesystem fail.",
  [OBJ, VAL, ROOT, FSW], [("errors of the filesystem in validation", "ocfl/validator.py"), ("errors in writing", "ocfl/object.py write_new_version"), ("errors in listing", "ocfl/storage_root.py object_paths, list_objects")],
  ["exception or value returned", "object tree", "Object.validate"],
  "The operation is run once to count its filesystem operations, and then once for each of them with an error injected there; the outcome is compared with the outcome without the fault, and the object is judged by the independent validator.",
  level="fault_enumeration")
R("C04", "Two concurrent writers never both write one version, or damage each other's",
  "When two writers update the same object at the same time, at most one of them succeeds in writing a given version number; the version of a writer that succeeded is complete and not mixed with files of the other, and earlier versions are intact.",
  ["schedules"],
  "All interleavings at filesystem operations with up to the bounded number of preemptions, for all pairs of kinds of writer.",
  "Tests are single threaded.",
  [OBJ], [("creation of the version directory is the claim to the version", "ocfl/object.py write_new_version")], ["results of the two writers", "object tree"],
  "Two writers on real code run as threads under a scheduler that owns every filesystem operation of the in-memory filesystem; all schedules up to the preemption bound are run and the results compared with those of the winner alone.")
R("C05", "Reading while another process updates gives what was written, or an error",
  "While an object is being updated, extracting a version that was there before gives exactly its files, extracting the head gives exactly the state before or after the update, and reading the inventory or identifier gives a complete one of the two; "
  "or the operation ends with an error. Mixed or partial data is never given as a result.",
  ["schedules", "histories"],
  "All interleavings of a reading operation with the primitive effects (each write in two parts) of an update, where the writer advances up to the bounded number of times.",
  "Tests are single threaded.",
  [OBJ, NV, FSW], [("order of writing", "ocfl/object.py write_new_version, write_inventory_and_sidecar"), ("inventory read once per operation and checked against its sidecar", "ocfl/object.py parse_inventory, extract")],
  ["values returned by extract, extract_file, parse_inventory, id_from_inventory, StorageRoot.list_objects"],
  "The effects of the update are recorded once and then applied, in order, at the points of the reading operation where it touches a file the writer touches; all placements within the bound are run on the real reading code.")
R("C06", "Adding to a storage root is all or nothing: errors, crashes and two adders",
  "If adding an object to a storage root fails, stops at any point or runs at the same time as another addition, then objects that were there stay as they were and are still listed, nothing is written outside the path of the object, and the root is not reported valid with an incomplete "
  "object in it. An addition that reports success has put the complete object there; of two additions at the same path at most one succeeds, and two at different paths both succeed or fail cleanly.",
  ["crash_points", "schedules"],
  "Every crash point with torn writes, an error at every operation, and all interleavings of two additions up to the bounded number of preemptions, for layouts x objects.",
  "Tests add objects one after another on storage that does not fail.",
  [ROOT, FSW], [("addition of an object", "ocfl/storage_root.py add"), ("copy", "ocfl/fsw.py ocfl_fs_copy")], ["tree of the root", "StorageRoot.validate", "StorageRoot.list_objects", "result of add"],
  "As C01-C04 for StorageRoot.add: effects are recorded and cut at every point, faults are injected at every operation, and pairs of additions run as threads under the scheduler; the root is judged with the real code and independently.")
R("V01", "No damage to an object goes unnoticed by validation",
  "Validation reports an object invalid after any change in its files, directories or bytes that makes it break the specification or the recorded digests, and valid if the change left it valid: the verdict agrees with the specification. This includes files missing, added, moved, "
  "swapped, truncated or with any byte changed, in any version.",
  ["inputs"],
  "Every single byte of every file replaced, and every file and directory subjected to every kind of change, in objects of several shapes; pairs of changes in the thorough tier.",
  "Tests validate a fixed list of bad fixtures, each with one defect in one place.",
  [VAL, IVAL, OBJ], [("content and digests", "ocfl/validator.py validate_content"), ("inventories and sidecars", "ocfl/validator.py validate_inventory, validate_inventory_digest"), ("version directories", "ocfl/validator.py validate_version_inventories")],
  ["Object.validate"],
  "Enumerates all changes of the alphabet on a set of objects and compares the verdict of the real validator with that of an independent validator (mc/oracle.py).")
R("V02", "An inventory is accepted exactly if it follows the rules of the specification",
  "An inventory is accepted by validation if and only if it follows the rules of the OCFL specification for its structure, keys, types, digests, paths, version numbers, metadata and references between blocks; alone or as part of an object.",
  ["inputs"],
  "Every change of one JSON value, key, list entry or string, from an alphabet of values for its role, in inventories of several shapes; pairs in the thorough tier.",
  "Tests use one bad fixture per error code; the space of combinations of block, place and wrong value is not covered.",
  [IVAL, "ocfl/digest.py", "ocfl/w3c_datetime.py"], [("blocks of the inventory", "ocfl/inventory_validator.py validate, validate_manifest, validate_versions, validate_fixity")],
  ["InventoryValidator.validate", "Object.validate_inventory", "Object.validate"],
  "All changes of the alphabet at every place of every inventory; the verdict is compared with that of an independent validator.")
R("V03", "Validation of any bytes whatsoever ends with a verdict",
  "Whatever bytes and entries are in place of an inventory, sidecar, declaration, layout or other file of an object or storage root, validation ends with a verdict rather than with an exception or without end, and does not report damaged input as valid.",
  ["inputs"],
  "All strings over token alphabets up to the bounded length in place of each kind of file, extreme contents and values at every place, entries of unusual kinds at every place.",
  "Tests parse a handful of malformed files.",
  [VAL, IVAL, ROOT, "ocfl/layout.py"], [("parsing of inventory", "ocfl/validator.py validate_inventory"), ("parsing of sidecar", "ocfl/object.py, ocfl/validator.py"), ("configuration of layouts", "ocfl/layout.py")],
  ["Object.validate", "Object.validate_inventory", "StorageRoot.validate"],
  "All token strings are put in place of the file and validated; an exception, a timeout or a verdict of valid where an independent reading says otherwise is a violation.")
R("V04", "The verdict on an object does not depend on route, options or history",
  "The verdict on an object and its error codes are the same by every route: any filesystem, any form of its path, with or without warnings or messages shown, in any language, by a validator used before for other objects, through a storage root and by the command line, whose "
  "exit status agrees with the verdict.",
  ["histories", "configurations"],
  "All objects of a set of good and defective ones x all routes and forms of path x options of reporting x all ordered pairs of objects validated by one validator.",
  "Tests validate each fixture once by one route.",
  [OBJ, VAL, "ocfl/validation_logger.py", ROOT, FSW], [("state of the validator", "ocfl/validator.py initialize"), ("opening by path or URL", "ocfl/fsw.py"), ("reporting", "ocfl/validation_logger.py")],
  ["verdict, error codes", "exit status of ocfl-validate.py, ocfl-root.py"],
  "Validates each object by each route and compares with the plain validation.")
R("V05", "Inventories of earlier versions must follow the rules and agree with later ones",
  "Validation reports an object invalid if the inventory of an earlier version breaks the rules, or if it does not agree with the later ones: on identifier, content directory, digests and state of each earlier version as far as they are the same content; it stays valid where the specification allows them to differ.",
  ["inputs", "histories"],
  "Every change of one value of an earlier inventory, and all replacements of it with that of the same version in another kind of object with another history.",
  "Tests have a few fixtures with inconsistent earlier inventories.",
  [VAL, IVAL], [("earlier inventories", "ocfl/validator.py validate_version_inventories"), ("comparison of inventories", "ocfl/inventory_validator.py validate_as_prior_version")],
  ["Object.validate"],
  "All changes and replacements; verdict compared with that of the independent validator.")
R("V06", "A valid object is reported valid, whatever optional features it has",
  "An object that follows the specification is reported valid, and can be read, whatever combination of optional features it has: padding, digest algorithms, content directory, specification version by version, digest case, version inventories left out, extensions, logs, "
  "form of sidecar, fixity, metadata, duplicate content and unusual identifiers.",
  ["inputs", "configurations"],
  "All combinations of up to the bounded number of optional features at once x several histories.",
  "Fixtures have the features one at a time.",
  [VAL, IVAL, OBJ, INV], [("acceptance of optional features", "ocfl/validator.py, ocfl/inventory_validator.py")], ["Object.validate", "Object.extract"],
  "An independent writer makes the objects; the real code must report them valid without error and give back every version.")
R("S01", "Layouts map identifiers to paths in the root, one to one, as described",
  "Each storage layout maps each identifier to the path that its definition gives, the same path every time, within the storage root, not shared with any other identifier; identifiers that the layout can not map are refused with its documented exception.",
  ["inputs", "configurations"],
  "All identifiers over an alphabet of delicate characters up to the bounded length, special identifiers around length limits, x all layouts x all their valid configurations.",
  "Tests check a dozen identifiers per layout with a few configurations.",
  ["ocfl/layout.py", "ocfl/layout_0002_flat_direct.py", "ocfl/layout_0003_hash_and_id_n_tuple.py", "ocfl/layout_nnnn_flat_quoted.py", "ocfl/layout_nnnn_tuple_tree.py", "ocfl/layout_nnnn_uuid_quadtree.py"],
  [("mapping of identifier to path", "ocfl/layout_*.py identifier_to_path")], ["Layout.identifier_to_path", "StorageRoot.object_path"],
  "Enumerates identifiers and configurations; compares with independent definitions of the layouts, and checks that no two identifiers share a path.")
R("S02", "A root is used with the layout it was created with; bad ones are refused",
  "A storage root opened again uses the layout and all its parameters with which it was created and maps each identifier to the same path; a layout or configuration that is unknown or bad is refused when creating with nothing created.",
  ["configurations", "histories"],
  "All configurations of each layout over sets of good and bad values for every parameter, by every route (library, command line), opened again by every route.",
  "Tests create a root with default layout and two with configuration.",
  [ROOT, "ocfl/layout.py", "ocfl/layout_registry.py", "ocfl/layout_0003_hash_and_id_n_tuple.py", "ocfl/layout_nnnn_uuid_quadtree.py"],
  [("writing layout and configuration", "ocfl/storage_root.py initialize, ocfl/layout.py write_layout_configuration"), ("reading them", "ocfl/storage_root.py parse_layout_file, ocfl/layout.py read_layout_configuration")],
  ["files of the root", "StorageRoot.object_path"],
  "Creates and opens a real root for every configuration and compares files and paths with an independent definition.")
R("S03", "A storage root acts like a map from identifier to object",
  "Any sequence of additions to a storage root and updates of objects in it acts as on a map from identifier to object: an addition of a new identifier makes exactly that object, complete, findable at its path and listed once with its identifier; an addition of one that is there, or of something "
  "without a valid inventory or that can't be placed, is refused without effect. The root stays valid.",
  ["histories"],
  "All sequences of operations up to the bounded length for each layout over sets of delicate identifiers and objects.",
  "Tests add one object to a root and check its files.",
  [ROOT, "ocfl/layout.py", FSW], [("addition", "ocfl/storage_root.py add"), ("listing", "ocfl/storage_root.py object_paths, list_objects")], ["tree of the root", "StorageRoot.list_objects", "StorageRoot.validate"],
  "Explores all sequences on a real root with a dict as model; in each state listing, verdict, paths and extraction are compared.")
R("S04", "The verdict on a storage root follows its structure and its objects",
  "A storage root is reported valid if and only if its declaration and layout files are right, all its objects are valid, and there is nothing between root and objects but directories that lead to objects and the extensions directory. Every object in it is found and listed, once, however it is nested.",
  ["inputs"],
  "All combinations of up to the bounded number of parts (good and bad objects, files and directories in odd places, declarations, layouts, extensions).",
  "Tests have some fixtures of good and bad roots, each with one defect.",
  [ROOT, "ocfl/namaste.py"], [("traversal", "ocfl/storage_root.py object_paths"), ("checks of the hierarchy", "ocfl/storage_root.py validate, validate_hierarchy")], ["StorageRoot.validate", "StorageRoot.list_objects"],
  "Enumerates combinations of parts, builds the tree and compares verdict and list with an independent traversal.")
R("X01", "Extraction writes just what was asked for, inside its destination",
  "Extracting a version or a file writes exactly the files of that version (or that file) below the destination and nothing anywhere else, overwrites nothing, and is refused without any effect if version, logical path or destination are not right. Paths in an inventory that lead out of the object "
  "or the destination are never followed.",
  ["inputs"],
  "All combinations of objects, version names, logical paths and destinations from sets of good and delicate ones, and all malformed paths in state or manifest of an inventory.",
  "Tests extract some versions of fixtures into new directories; no test has an inventory with paths that lead out.",
  [OBJ, IVAL, FSW], [("destination and copying", "ocfl/object.py extract, extract_file"), ("refusal of bad paths", "ocfl/inventory_validator.py"), ("opening of directories", "ocfl/fsw.py fsw_openfs")],
  ["Object.extract", "Object.extract_file"],
  "Enumerates the combinations and compares the whole scratch directory before and after with a map of what should be there.")
R("X02", "Digests are those of the whole content by the algorithm named",
  "The digest computed for a file is that of all of its bytes by the algorithm named, whatever its size, the storage it is on and the sizes of the pieces in which it is read; the digest of a string is that of its UTF-8 form. Exactly the strings of the right form are taken as digests, and forms that "
  "differ in case only are taken as the same. Unknown algorithms are refused.",
  ["inputs"],
  "All algorithms x all sizes around block and buffer sizes x kinds of content x storage x patterns of short reads; all strings of any length or one character off.",
  "Tests compute digests of a few short files.",
  ["ocfl/digest.py", FSW], [("reading in pieces", "ocfl/digest.py _file_digest"), ("choice of algorithm", "ocfl/digest.py file_digest, string_digest"), ("form", "ocfl/digest.py digest_regex, normalized_digest")],
  ["file_digest", "string_digest", "normalized_digest"],
  "Enumerates algorithm, size, content, storage and reads; compared with digests of the whole bytes, which are compared with those of the programs of the system.")
R("X03", "Exactly the W3C datetimes are read, and times written are read back",
  "A string is read as time if and only if it is a W3C datetime of a day and time that exist (with optional timezone), and gives that time; every time that is written has this form and is read back as the same time.",
  ["inputs"],
  "All combinations of good and bad parts of dates, times, fractions, zones and separators; all strings one edit from good forms; times at all borders of years, leap days and powers of two.",
  "Tests read some dozens of strings.",
  ["ocfl/w3c_datetime.py"], [("reading", "ocfl/w3c_datetime.py str_to_datetime"), ("writing", "ocfl/w3c_datetime.py datetime_to_str")], ["str_to_datetime", "datetime_to_str", "created times in inventories"],
  "Enumerates strings and times; compared with an independent reading and calendar.")
R("X07", "What is at a path is recognized by its declaration, and only by that",
  "A path is taken as storage root, object or file exactly according to the declarations in it, whatever else is there, and any other path is described without exception; declarations are written with the right name and content, all found, and taken as right only if name and content agree.",
  ["inputs"],
  "All sets of up to the bounded number of entries, all kinds of path, all contents from a set, on each filesystem.",
  "Tests try some fixtures.",
  ["ocfl/namaste.py", "ocfl/object_utils.py"], [("detection", "ocfl/object_utils.py find_path_type"), ("declarations", "ocfl/namaste.py")], ["find_path_type", "find_namastes", "Namaste"],
  "Enumerates sets of entries and compares with a definition of the type by names.")
R("X08", "The inventory classes answer and act as the inventory data says",
  "Every accessor and query of an inventory or version gives what its JSON data says, in the order of versions, and changes nothing; copies are independent; what is written is read back the same. Additions and deletions of versions, files, fixity and digests act like those on maps from path to digest.",
  ["histories", "inputs"],
  "Inventories of all histories up to the bound x features, and with each part left out; all sequences of operations up to the bound from an empty inventory.",
  "Tests query some fixtures and make some operations in sequence.",
  [INV, "ocfl/object_utils.py"], [("queries and operations", "ocfl/inventory.py Inventory, Version"), ("names of versions and of unused paths", "ocfl/object_utils.py")], ["Inventory", "Version"],
  "Enumerates inventories and explores sequences of operations, each compared with an independent reading or a model of maps.")
R("X09", "Storage is accessed the same way whatever kind it is",
  "Walking, listing, reading, comparing and copying give exactly what is on storage, on every kind of filesystem and in every form of path, and the same operations of the library on any of them give the same files and the same answers.",
  ["inputs", "configurations", "histories"],
  "All small trees x kinds of filesystem x operations of the wrapper; files around the buffer size with differences at delicate places and short reads; all histories up to the bound on each kind.",
  "Tests use small fixtures on the local filesystem and a few on others.",
  [FSW, OBJ, ROOT], [("wrapper", "ocfl/fsw.py")], ["fsw_walk", "fsw_copydir", "fsw_files_identical", "fsw_openfs", "trees written on each filesystem"],
  "Enumerates trees and operations and compares with definitions on maps; runs the same histories on each kind of storage and compares. Also replays all pairs of calls on the in-memory filesystem of the other checks and on the local one.")
R("X04", "Content and metadata go through BagIt bags unchanged; bad bags are refused",
  "A bag extracted from a version of an object holds exactly the files of that version and its metadata and is valid; a version made from a bag has exactly the files of the bag and its metadata, save what is given explicitly. An object or version is never made from a bag that isn't valid, "
  "and nothing is written then.",
  ["inputs"],
  "All contents x sets of metadata out of and into objects, by library and command line; all kinds of damage to a bag x contents x routes.",
  "Tests make one bag and use a few fixtures.",
  ["ocfl/bagger.py", OBJ, "ocfl-object.py"], [("bags", "ocfl/bagger.py bag_as_source, bag_extracted_version"), ("options --srcbag and --dstbag", "ocfl-object.py")], ["bag_as_source", "bag_extracted_version", "ocfl-object.py --srcbag, --dstbag"],
  "Enumerates contents, metadata and damages; bags are compared with an independent reading of the BagIt format.")
R("X05", "The command line programs do what the library does with the same settings",
  "Each command of ocfl-object.py, ocfl-root.py and ocfl-validate.py with any of its options has the same effect on storage as the library called with the settings that the options stand for, gives the same answer, and its exit status is zero if and only if that was success; bad options or arguments have no effect."
  "",
  ["inputs", "configurations"],
  "All commands x all sets of up to the bounded number of options x situations of storage good and bad.",
  "Tests run each command some times and compare a line of output.",
  ["ocfl-object.py", "ocfl-root.py", "ocfl-validate.py", "ocfl/command_line_utils.py"], [("commands", "ocfl-object.py, ocfl-root.py, ocfl-validate.py"), ("options common to the programs", "ocfl/command_line_utils.py")],
  ["exit status and output of the programs", "trees written"],
  "Enumerates options and situations; runs command and library on equal trees and compares trees, answers and exit status.")
R("X06", "The sidecar tool writes the right sidecar of each inventory it is given",
  "ocfl-sidecar.py gives every inventory at the paths in its arguments the sidecar of the digest algorithm that the inventory names (or that is asked for), with the right digest, so that the object is valid if it was but for its sidecar; it writes nothing else, whatever its arguments and whatever sidecar was there.",
  ["inputs"],
  "All inventories x sidecars that were there x forms of path x algorithms; all lists of up to the bounded number of paths good and bad.",
  "Tests run it once or twice on a fixture.",
  ["ocfl-sidecar.py", OBJ], [("the tool", "ocfl-sidecar.py create_sidecar"), ("writing", "ocfl/object.py write_inventory_sidecar")], ["files written by ocfl-sidecar.py", "its exit status"],
  "Enumerates arguments and situations; the whole scratch directory is compared with that expected by an independent definition.")
R("X10", "The tree shown of an object names all that is in it and marks what is not right",
  "The tree shown of an object names each thing in its root and version directories at its depth, and tells how many files the content of a version has; whatever does not belong in an object, and whatever must be there and is missing, is marked, and nothing else is.",
  ["inputs"],
  "All objects from a set x all sets of up to the bounded number of entries added or removed x storage.",
  "Tests show two fixtures.",
  [OBJ], [("tree", "ocfl/object.py tree")], ["Object.tree", "ocfl-object.py show"],
  "Enumerates objects with entries added and removed; lines of the tree are compared with what is on storage.")
R("X11", "Each rule that is broken is reported under its code, saying where and what",
  "An object, inventory or storage root that breaks one rule of the specification is reported with the code of that rule and no other error (or a warning, if the rule is a recommendation), with a description that names the place and the values at fault and links the rule; what is shown and kept "
  "of it follows the settings for warnings, language and prefix, and changes no verdict.",
  ["inputs", "configurations"],
  "A table of rules x places x kinds of object; all pairs of rules in one object; all settings of the log.",
  "Tests compare codes for fixtures with one defect each, and messages for a few.",
  ["ocfl/validation_logger.py", "ocfl/data/validation-errors.json", IVAL, "ocfl/validator.py", ROOT],
  [("messages", "ocfl/validation_logger.py, ocfl/data/validation-errors.json"), ("rules", "ocfl/inventory_validator.py, ocfl/validator.py, ocfl/storage_root.py")],
  ["Validator.validate_object messages and codes", "StorageRoot.validate", "ValidationLogger"],
  "Enumerates rules broken and places; codes, values and counts of messages are compared with a table written from the specification.")
R("X12", "S3 is used as files are, as it is now; a refused request is never success",
  "Objects and storage roots on S3 storage, named by any form of S3 URL (with parameters for endpoint or profile or without), are written, read, validated, listed and extracted just as they are on files, also if there are markers (empty objects with names ending in a slash) for the directories; each operation goes by what is in the bucket at the time, whatever was read before in the same "
  "process; when the service refuses a request, no operation ends as if it was done, no object is found valid, and nothing that was there before is lost.",
  ["histories", "fault_sequences", "configurations"],
  "All histories up to the bound x forms of URL x ways of writing x kinds of source; roots x layouts x places; all single changes of an object or root between two readings; all requests of an operation refused.",
  "Tests only split one S3 URL: no operation is run on S3.",
  [FSW, OBJ, ROOT, "ocfl/object_utils.py"], [("S3 URLs and opening", "ocfl/fsw.py fsw_openfs, _fsw_s3_urlparse"), ("paths derived from URLs", "ocfl/fsw.py, ocfl/object.py, ocfl/object_utils.py find_path_type")],
  ["objects in the bucket", "answers of Object and StorageRoot"],
  "Runs the real S3 filesystem against an S3 service in memory on the loopback network; each history, change or refused request is enumerated and compared with the same on local files.")
