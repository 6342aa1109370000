# executed by registry.py
prop("P01", "Python bit-field codec is exact and never disturbs neighbouring bits",
     "In the Python library, writing a value that fits a bit field of any width (1..64 bits), signedness and bit offset and reading the field back yields exactly that value. Writing changes no bit outside the field and touches no byte outside those the field occupies, whatever the buffer held before.",
     ["inputs", "histories"],
     "every bit offset x width 1..64 x signedness x prior buffer content x value, and every order of (re)writing adjacent fields",
     "The tests read a few hundred hand-written byte patterns and write only into zeroed buffers in field order; prior content and most offset/width pairs are never combined.",
     [PYLIB + "data_access.py", PYLIB + "structure.py"],
     [("read_value: masks, shifts, sign extension", PYLIB + "data_access.py"),
      ("write_value: read-modify-write of covered bytes", PYLIB + "data_access.py")],
     "exploration", "bounded exhaustive enumeration of codec inputs and write histories on the real code against an integer bit model",
     "Complete for all offsets in the bound, all widths and both signs; values exhaustive for small widths, boundary/walking-bit for larger ones. Trusts the 6-line integer model.")

prop("P02", "C++ bit-field codec is exact and never disturbs neighbouring bits",
     "In the C++ library, assigning a value that fits a field (unsigned, signed, boolean, enumeration, field with an invalid value) and reading it back through either the mutable or the read-only view yields exactly that value, for every width and bit position. No bit outside the field changes, no byte outside the structure and the guaranteed padding is accessed, and a field with an invalid value reads as absent exactly if it holds that value.",
     ["inputs", "histories"],
     "every bit offset modulo 8 x width 1..64 x field type x prior buffer content x value",
     "The generated test structures sample offsets, write into zeroed memory, never use signed enumerations next to other data and never rewrite optional fields.",
     [CPP + "internal/Reader.h", CPP + "internal/Writer.h", CPP + "internal/BitHelpers.h"],
     [("Reader::operator T: masked read plus sign extension", CPP + "internal/Reader.h"),
      ("Writer::operator=: masked read-modify-write", CPP + "internal/Writer.h")],
     "exploration", "bounded exhaustive enumeration of all template instantiations and inputs on the real code against an integer bit model, under ASan/UBSan",
     "All (offset mod 8, width) instantiations per type; boundary and walking-bit values, all values for small widths. Trusts the sanitizers and the bit model.")

prop("P03", "All target languages agree on structure layout and no fields overlap",
     "For every accepted schema, the code generated for each target language places every structure field at the same bit offset with the same width and signedness. Fields are packed in declaration order without gaps or overlaps, and the structure's size is the sum of the widths rounded up to whole bytes.",
     ["programs", "inputs"],
     "every schema built from up to 4 fields over all basic types, boundary widths and enumeration typed fields, in every order",
     "The tests compare generated text for a few dozen fixed schemas with stored text; they do not relate the languages to each other.",
     [GEN + "tree/nodes/trivial/structure.py", GEN + "tree/nodes/trivial/field.py", GEN + "templates/cpp/structure.jinja2", GEN + "templates/py/python.jinja2", GEN + "templates/rust", GEN + "templates/go"],
     [("sequential offset assignment", GEN + "tree/nodes/trivial/structure.py")],
     "exploration", "bounded exhaustive enumeration of schemas; generated code of every back end is evaluated and compared with a reference layout",
     "Offsets are extracted from generated code by executing it (Python, C++) or parsing accessor calls (Rust, Go).")

prop("P04", "Archives written in one language read identically in the other",
     "An archive written by the C++ builder reads back with identical contents in Python, and one written by the Python builder reads back identically in C++, for all resource kinds. Both produce byte-identical files for identical contents, and these follow the documented format.",
     ["programs", "inputs", "histories"],
     "every combination of resource contents over a schema with all resource kinds, and every struct shape in the layout alphabet, in both directions",
     "Compatibility tests check one fixed byte string per resource kind and language.",
     [PYLIB + "archive_builder.py", PYLIB + "archive.py", PYLIB + "resources.py", CPP + "ResourceStorage.h", CPP + "ExternalVector.h", CPP + "MultiVector.h"],
     [("size header, padding, schema companion files", CPP + "internal/ResourceStorage.inl"),
      ("size header, padding", PYLIB + "resource_storage.py")],
     "exploration", "exhaustive enumeration of archive contents, written by both real implementations, compared byte-wise with a reference encoder and read back cross-language",
     "Complete over the stated content alphabet; linux little-endian only.")

prop("P05", "Python builder: every call history leaves exactly the accepted resources",
     "After any sequence of set calls on a Python archive builder, the directory contains exactly the accepted resources, each with the documented bytes, its schema and (for multivectors) its index; each resource can be set at most once. A rejected call (unknown resource, already set, missing or unknown field, unknown structure, data the index cannot address, unsupported kind) raises the documented error and leaves no trace. Once all mandatory resources are set the archive opens and reads back what was passed.",
     ["histories", "inputs"],
     "all sequences of builder calls up to depth 3 over 25 operations, every order of completing an archive with any further call at any point, and all sizes around multivector index limits",
     "Tests write one resource once; no test repeats, reorders or rejects a call.",
     [PYLIB + "archive_builder.py", PYLIB + "resource_storage.py", PYLIB + "file_resource_writer.py"],
     [("set: already-written list, validation before writing", PYLIB + "archive_builder.py")],
     "exploration", "exhaustive enumeration of builder call histories on the real code against a file-level reference model",
     "All histories within the depth; contents from a small alphabet with extreme values.")

prop("P06", "Python archive opening accepts exactly intact, schema-matching archives",
     "Opening an archive in Python succeeds exactly if the signature and every mandatory resource are present with the expected schema; any missing, truncated or schema-mismatching mandatory part is reported as an error on opening. Absent optional resources read as None and never prevent opening, while a present optional resource with a differing schema is reported; errors identify missing, mismatching and corrupt parts by distinct error types.",
     ["fault_sequences", "configurations"],
     "every combination of per-file faults (absent, truncated at every length, every single-character schema change, swapped) over an archive with all resource kinds and subarchives, in directory and tar form",
     "Tests delete or alter one file of single-resource archives.",
     [PYLIB + "archive.py", PYLIB + "resources.py", PYLIB + "file_resource_storage.py", PYLIB + "tar_archive_resource_storage.py"],
     [("eager opening and schema comparison", PYLIB + "archive.py"), ("minimum size check", PYLIB + "resources.py")],
     "fault_enumeration", "exhaustive enumeration of file-level faults on the real reader against an oracle of accepted archives",
     "All single faults and all pairs (quick: per-resource kinds) within the fault alphabet.")

prop("P07", "Python containers behave like the sequences of values they store",
     "Vectors, multivectors, raw data and instances of an opened archive behave like Python sequences of the stored values: length, positive and negative indexing, out-of-range errors, iteration, all slices and repr. Conversions to tuples, dictionaries, numpy arrays and data frames deliver the same values, in declaration order of the fields.",
     ["inputs"],
     "every container size 0..5 (plus sizes around the display limit), every index and every (start, stop, step) slice in a range beyond the bounds",
     "Tests index single elements of two-element vectors.",
     [PYLIB + "resources.py", PYLIB + "structure.py"],
     [("slice and index arithmetic", PYLIB + "resources.py"), ("field table", PYLIB + "structure.py")],
     "exploration", "exhaustive enumeration of sizes, indices and slices against Python lists",
     "Complete for the stated sizes and index ranges.")

prop("P08", "Python: a tar file serves exactly the files and directories it contains",
     "Opening a tar archive in Python gives exactly the same resources, directory listings, subarchives and errors as opening the directory it was created from, for every tar dialect, path prefix and member order. Unsupported (sparse) members are rejected.",
     ["inputs", "configurations"],
     "every subset and order of members of a small archive tree x tar dialects (ustar, GNU, pax) x path prefix styles x name lengths around the format limits",
     "Tests read one fixed tar file.",
     [PYLIB + "tar_archive_resource_storage.py"],
     [("member table built on opening", PYLIB + "tar_archive_resource_storage.py")],
     "exploration", "exhaustive enumeration of small tar files; tar-backed and directory-backed storages compared on every key",
     "Tars are produced by an independent writer in all dialects.")

prop("P09", "C++ archive opening accepts exactly intact, schema-matching archives",
     "A C++ archive opens exactly if its signature and every mandatory resource (recursively in subarchives) is present, framed with a correct size, carries the expected schema and does not exceed the size its explicit references can address. A resource failing any of this is never exposed as loaded: a mandatory one makes the archive not open, an optional one reads as absent (an optional one that exceeds its references' range makes the archive not open, too); opening never crashes.",
     ["fault_sequences", "configurations"],
     "every combination of per-file faults (absent, every truncation length, wrong size header, schema changes) over an archive with all resource kinds, in memory and directory storages",
     "Tests try a handful of fixed corruptions of single resources.",
     [SRC + "Archive.cpp", CPP + "internal/ResourceStorage.inl", CPP + "Archive.h", CPP + "FileResourceStorage.h", CPP + "MemoryResourceStorage.h"],
     [("read_and_check_schema", CPP + "internal/ResourceStorage.inl"), ("Archive::initialize, load_contents", SRC + "Archive.cpp")],
     "fault_enumeration", "exhaustive enumeration of faults on the real reader, under ASan, against an oracle",
     "All single faults, all pairs of coarse faults.")

prop("P10", "An interrupted or failed C++ write is never mistaken for a complete resource",
     "If writing an archive stops at any point - a crash after any prefix of the bytes written, or a stream error at any write - then on reopening every resource is either absent or holds a complete, correctly framed value; one whose writing was not completed is not accepted. A failing write is reported to the caller by the result of set or close.",
     ["crash_points", "fault_sequences"],
     "every prefix of the write log of every resource kind's writing history, torn at every byte, and a stream failure at every stream operation",
     "No test injects a crash or a stream error.",
     [CPP + "internal/ResourceHandle.h", CPP + "internal/ResourceStorage.inl", SRC + "ResourceStorage.cpp", CPP + "ExternalVector.h", CPP + "MultiVector.h"],
     [("size header is invalid until close rewrites it", CPP + "internal/ResourceHandle.h"), ("size comparison on reading", CPP + "internal/ResourceStorage.inl")],
     "fault_enumeration", "enumeration of all crash points of recorded write logs and of all stream failure points on the real writers, then reopening with the real reader",
     "Crash model: prefix of the issued writes per file, torn at any byte, files in issue order.")

prop("P11", "C++ growing containers hold exactly what was appended",
     "After any sequence of grow, pop, resize and assignment operations, C++ vectors hold exactly the values a plain list would, with new elements zero-initialized. External vectors and multivectors written incrementally, flushed any number of times, read back after close exactly what was appended, in order.",
     ["histories"],
     "all operation sequences up to the bound against a list model, and all placements of the internal flush threshold",
     "Tests append a few elements; the flush path of tens of megabytes is hit with one pattern.",
     [CPP + "Vector.h", CPP + "ExternalVector.h", CPP + "MultiVector.h"],
     [("buffer with padding, flush above a threshold, running offset", CPP + "MultiVector.h")],
     "exploration", "exhaustive enumeration of operation sequences on the real containers against list models, under ASan/UBSan",
     "All sequences to the stated depth; flush threshold crossed at enumerated alignments.")

prop("P12", "C++ array views, slices, ranges and iterators satisfy sequence algebra",
     "An array view over n elements behaves as the sequence of these elements under indexing, all slicing operations, iteration and random access iterator arithmetic and comparison, including negative distances, composed in any order. For structures with a range field the final sentinel is hidden and every element's range is the pair of its own and its successor's value.",
     ["inputs", "histories"],
     "all view sizes up to the bound, all compositions of slicing operations up to depth 3, all pairs of iterator positions, with and without range fields",
     "Tests check a few fixed slices and forward iteration.",
     [CPP + "ArrayView.h", CPP + "internal/ArrayView.inl", CPP + "internal/ArrayViewIterator.inl", CPP + "internal/Reader.h"],
     [("pointer arithmetic in element size", CPP + "internal/ArrayViewIterator.inl"), ("overlap handling", CPP + "internal/ArrayView.inl")],
     "exploration", "exhaustive enumeration of view operations against a list model",
     "Complete for the stated sizes and depth.")

prop("P13", "C++ multivector access visits exactly the stored elements of an item",
     "For every item of a multivector, for_each and typed iterators visit exactly the stored elements of the requested types, in the order they were added, with their values; items are independent and may be empty. Unknown type indices are reported as an error instead of being interpreted.",
     ["inputs", "histories"],
     "all lists of up to 3 items with up to 3 elements of 3 types, all subsets of visited types, all iterator positions",
     "Tests use one fixed multivector.",
     [CPP + "MultiArrayView.h", CPP + "MultiVector.h", CPP + "internal/MultiArrayViewImpl.h"],
     [("type dispatch and skipping", CPP + "MultiArrayView.h")],
     "exploration", "exhaustive enumeration of multivector contents against a list-of-lists model, under ASan",
     "Complete for the stated shapes.")

prop("P14", "C++: a tar file serves exactly the files it contains and never crashes",
     "Opening a tar file in C++ gives every regular file it contains under its full name with exactly its bytes, for all member orders, path prefixes, long names and numeric encodings, so that an archive in a tar opens as it does from a directory. Truncated, corrupted or unsupported input is rejected or yields resources that fail to open; it never crashes, hangs or reads outside the file.",
     ["inputs", "fault_sequences"],
     "every small tar over member sets, orders, name lengths and encodings; every truncation point and every header byte corrupted",
     "Tests cover a few fixed tars; malformed input is left to a fuzzer (sampling).",
     [SRC + "TarReader.cpp", CPP + "MemoryMappedTarFileStorage.h", CPP + "TarArchiveResourceStorage.h"],
     [("read_tar_file_entries", SRC + "TarReader.cpp"), ("bounds of file views", CPP + "MemoryMappedTarFileStorage.h")],
     "fault_enumeration", "exhaustive enumeration of small tars and of all truncations and single-byte header corruptions on the real reader, under ASan, against an independent tar oracle",
     "GNU/ustar dialects as supported; pax headers are rejected.")

prop("P15", "C++ builder never modifies an existing archive",
     "Opening a C++ builder on a storage without the archive creates its signature, and everything set or started is readable afterwards. Opening it on an existing archive succeeds only if the schema matches and then refuses every attempt to write a resource, leaving all existing bytes unchanged, while subarchives that do not exist yet can still be created.",
     ["histories"],
     "all sequences of builder openings and writes up to the depth, over parent and subarchives, in memory and directory storages",
     "Tests check one refused write.",
     [SRC + "ArchiveBuilder.cpp", CPP + "ArchiveBuilder.h", GEN + "templates/cpp/archive.jinja2"],
     [("check_created", SRC + "ArchiveBuilder.cpp")],
     "exploration", "exhaustive enumeration of open/write histories on the real builder against a reference model of the storage",
     "All histories within the depth.")

prop("P16", "Normalized schemas are self-contained fixed points",
     "The normalized schema of every archive, resource and structure is itself an accepted schema that describes the same layout, resources and values, and normalizing it again yields the identical text. It does not depend on comments, whitespace, spelling of references and numbers, order of definitions other than constants, or unrelated definitions in the source. (A resource with explicit references names targets outside of its own schema; for it only stability of the text is claimed.)",
     ["programs"],
     "all schemas composed from an alphabet of definitions (structs, enums, constants, namespaces, all resource kinds and decorations) up to the bound, with all permutations and comment placements",
     "Tests compare fixed outputs for fixed inputs.",
     [GEN + "tree/syntax_tree.py", GEN + "generators/flatdata.py", GEN + "templates/flatdata", GEN + "tree/builder.py"],
     [("extract_subtree plus rendering", GEN + "tree/syntax_tree.py")],
     "exploration", "bounded exhaustive enumeration of schemas, checking idempotence, self-containment and invariance on the real generator",
     "Complete over the stated schema family.")

prop("P17", "Stored schemas differ whenever the data would be interpreted differently",
     "Two schemas whose archives interpret the same bytes differently - any change of a field's name, type, width or order, of an enumeration's values, of a range, invalid value or explicit reference, of a resource's kind, name, element types or optionality - never produce the same stored schema for the affected resource or archive. All target languages embed the identical stored schema for everything they check on opening.",
     ["programs"],
     "all single and pairwise semantic edits of a schema family covering every construct, for every target language",
     "Tests have no notion of schema difference.",
     [GEN + "templates/flatdata", GEN + "generators/flatdata.py", GEN + "tree/syntax_tree.py", GEN + "templates/cpp/archive.jinja2", GEN + "templates/py/python.jinja2"],
     [("schema rendering of every semantic attribute", GEN + "templates/flatdata")],
     "exploration", "bounded exhaustive enumeration of semantic edits and comparison of stored schemas across the real generators",
     "Complete over the stated edit alphabet.")

prop("P18", "The generator accepts exactly well-formed values, widths and enumerations",
     "A schema is accepted exactly if all field widths fit their types, constants and enumeration values fit their type or width, enumeration values and names are unique, and enumerations are not too sparse for their width; otherwise a syntax error is reported, never a crash or broken code.",
     ["programs", "inputs"],
     "all basic types x widths 0..65+, all boundary values of constants and enumerations for all widths",
     "Tests try a few invalid examples each.",
     [GEN + "tree/builder.py", GEN + "tree/helpers/basictype.py", GEN + "tree/helpers/enumtype.py", GEN + "tree/nodes/trivial/enumeration.py", GEN + "tree/errors.py"],
     [("build_ast validation passes", GEN + "tree/builder.py")],
     "exploration", "bounded exhaustive enumeration of schemas at the validity boundary against an independent decision procedure",
     "Complete over types, widths and boundary values.")

prop("P19", "The generator accepts exactly consistent references and decorations",
     "A schema is accepted exactly if every referenced name resolves to a definition of the right kind, constants used as invalid or known values have the field's type and fit it, ranges and explicit references are used only where they are valid and only once, and no archive contains itself directly or indirectly; otherwise a syntax error is reported, never a crash.",
     ["programs"],
     "all small reference graphs between archives, all kinds of targets for all kinds of references, all placements of decorations",
     "Tests try one invalid example per rule.",
     [GEN + "tree/builder.py", GEN + "tree/resolver.py", GEN + "tree/nodes/explicit_reference.py", GEN + "tree/nodes/resources"],
     [("validation passes after resolving references", GEN + "tree/builder.py")],
     "exploration", "bounded exhaustive enumeration of reference graphs and decorations against an independent decision procedure",
     "All digraphs on up to 3 archives; all target kinds.")

prop("P20", "Names resolve to exactly the documented definition in every scope",
     "A local name refers to a member of the enclosing archive if there is one of that name, else to the definition in the directly enclosing namespace; a qualified name (leading dot) refers to exactly the definition it spells out. This is independent of definition order and of equally named definitions elsewhere; a name without definition there is an error. Generated code refers to the definition resolved that way.",
     ["programs"],
     "all placements of equally named definitions over nested namespaces x all reference spellings x all definition orders",
     "Tests resolve a few names.",
     [GEN + "tree/resolver.py", GEN + "tree/nodes/references.py", GEN + "tree/nodes/node.py"],
     [("scope walk", GEN + "tree/resolver.py")],
     "exploration", "bounded exhaustive enumeration of namespace trees and references against an independent resolver",
     "Complete over the stated placements.")

prop("P21", "Constants and enumerations have identical values in every language",
     "Every constant and enumeration value has in every target language's generated code exactly the value and type given in the schema, however it is written (decimal, hexadecimal, negative, implicit). Enumerations used with a width are closed: every bit pattern of that width has a named value.",
     ["programs", "inputs"],
     "all basic types x boundary values x literal notations; all assignments of explicit and implicit enumeration values up to 4 entries x widths",
     "Tests compare fixed text.",
     [GEN + "tree/nodes/trivial/enumeration.py", GEN + "tree/nodes/trivial/constant.py", GEN + "templates"],
     [("auto-increment and gap filling of enumeration values", GEN + "tree/nodes/trivial/enumeration.py")],
     "exploration", "bounded exhaustive enumeration of constants and enumerations; values extracted from each back end's code and compared",
     "Complete over the stated alphabet.")

prop("P22", "Whatever the Python writer writes, the inspector shows",
     "An archive written through the schema-driven Python writer (as library or command line, one or more invocations) from any accepted schema can be opened by the inspector from the stored files alone, as directory, file path or tar, and shows the values written. With several archives in a schema or directory the one named is used, and ambiguity is reported.",
     ["programs", "configurations", "histories"],
     "all combinations of namespace depth, archive count, comments and names, writer invocation sequences and storage forms",
     "The writer and the inspector have no tests.",
     [PYLIB + "flatdata_writer.py", PYLIB + "inspector.py", PYLIB + "writer.py", GEN + "engine.py"],
     [("archive lookup by name", GEN + "engine.py"), ("stored schema drives opening", PYLIB + "inspector.py")],
     "exploration", "explicit-state exploration: all states of the archive directory reachable by any sequence of real writer invocations, the real inspector in every state",
     "Complete over the stated forms.")

prop("P23", "C++ diagnostics never crash and describe the actual state",
     "Describing an archive, in any state of its storage (complete, missing or mismatching parts, optional absent, subarchives, other schema), never crashes or reads outside its data, and reports for each resource whether it is loaded, optional or too large and its size. For a differing schema the description contains every differing line.",
     ["configurations", "fault_sequences"],
     "all fault combinations of the opening check and all pairs of small schemas for the difference",
     "Tests describe a few archives.",
     [SRC + "Archive.cpp", CPP + "Archive.h", CPP + "MemoryResourceStorage.h"],
     [("compute_diff, create_context, describe_impl", SRC + "Archive.cpp")],
     "fault_enumeration", "exhaustive enumeration of archive states, description compared with the oracle's state, under ASan",
     "Complete over the fault alphabet.")

prop("P24", "C++ storages can be used concurrently",
     "Threads that concurrently open archives from, and write different resources through, a shared storage (including its subdirectories) observe the same results as some sequential order: no data race, no lost or mixed resource, no deadlock.",
     ["schedules"],
     "all interleavings of 2-3 threads with 1-3 storage operations each up to a preemption bound",
     "No test uses more than one thread.",
     [CPP + "MemoryResourceStorage.h", CPP + "FileResourceStorage.h", CPP + "MemoryMappedFileStorage.h"],
     [("mutex around the storage maps", CPP + "MemoryResourceStorage.h")],
     "model_checking", "stateless model checking: controlled scheduler enumerates all interleavings at lock operations up to a preemption bound; ThreadSanitizer in a separate free run",
     "Scheduling points at mutex operations and storage calls.")

prop("P25", "Code generation is deterministic",
     "For a given schema every back end produces byte-identical output on every run, independent of hash seeds, of what was generated before, and of the environment (locale, encodings, time zone, optimization of the interpreter).",
     ["programs", "configurations"],
     "all schemas of the family x all back ends x hash seeds x generation histories within one process; 90 environments",
     "Tests run with one hash seed, once per schema.",
     [GEN + "tree/syntax_tree.py", GEN + "generators", GEN + "engine.py"],
     [("ordered traversals", GEN + "tree")],
     "exploration", "enumeration of schemas, seeds and generation orders comparing outputs",
     "Hash seeds are a finite sample of configurations; set iteration orders that matter are permuted exhaustively.")

prop("P26", "Rust writes the documented files, reads them back, and reports damage",
     "Whatever is written with the Rust builder (setting, growing in memory or in the resource, any number of elements, resources written again, unfinished resources) gives exactly the documented files, in memory as on disk; archives written by any language read back as the same values. A missing, truncated, mismatching or otherwise damaged resource makes opening return an error (None for an absent optional one, too large for explicit references) and never panics.",
     ["inputs", "histories", "fault_sequences"],
     "all contents of a bounded alphabet in three ways of writing; all histories of up to 3 builder steps on both storages; every single fault and pairs of faults of the files",
     "Tests write and read a few archives and do not damage any.",
     [RS + "storage.rs", RS + "filestorage.rs", RS + "memstorage.rs", RS + "vector.rs", RS + "multivector.rs", RS + "multiarrayview.rs", GEN + "templates/rust"],
     [("header and schema check", RS + "storage.rs"), ("flushing of growing resources", RS + "vector.rs"), ("open and builder of archives", GEN + "templates/rust/archive.jinja2")],
     "exploration", "bounded exhaustive enumeration of contents, histories and faults on the compiled library against a reference model of the format",
     "Complete over the stated alphabets; 32 MB buffers crossed at every count around the limit.")

prop("P29", "Rust storages can be used concurrently",
     "Threads that share a Rust storage (also through its subdirectories) and read, open archives, ask for existence, print it or write own resources all get the same results as alone; slices and archives they got stay valid and unchanged as long as the storage; nothing deadlocks.",
     ["schedules"],
     "all schedules of 2-3 threads with 1-2 operations each within a preemption bound, memory and file storage",
     "No test uses more than one thread.",
     [RS + "filestorage.rs", RS + "memstorage.rs"],
     [("maps of opened resources behind mutexes, lifetime extension of slices", RS + "filestorage.rs"), ("streams and resources behind mutexes", RS + "memstorage.rs")],
     "model_checking", "stateless model checking of the compiled library: std's locks and threads replaced by shuttle's, an own scheduler enumerates all schedules up to a preemption bound; freed memory and removed mappings poisoned",
     "Scheduling points are lock and thread operations.")

prop("P30", "Rust: a tar file serves exactly the files it contains and never panics",
     "Opening a tar file in Rust gives every regular file it contains under its full name, through any chain of subdirectories, with exactly its bytes, for all member orders, path prefixes, long names and number encodings, so that an archive in a tar opens as it does from a directory. Truncated, corrupted or unsupported input is rejected or serves bytes of the file; it never panics.",
     ["inputs", "fault_sequences"],
     "every small tar over member sets, orders, name lengths and encodings; every truncation point and every header byte corrupted",
     "The tar storage has no test with damaged input.",
     [RS + "tarstorage.rs"],
     [("ranges of the files of a tar", RS + "tarstorage.rs")],
     "fault_enumeration", "exhaustive enumeration of small tars and of all truncations and single-byte header corruptions on the compiled library",
     "Complete over the stated alphabet.")

prop("P27", "The code generated for every accepted schema compiles in every language",
     "For every schema the generator accepts, whatever the combination of resource kinds, decorations, field types, extreme values, names (other than keywords and generated members), namespaces and comments, every back end produces code that its target language accepts, including all members of its templates, and that defines the classes of all structures and archives with exactly the declared resources. No back end fails while rendering. The Go back end, documented as beta, is held to this for its own subset only.",
     ["programs"],
     "all combinations of up to 2-3 resource kinds, all kinds of fields x decorations x extreme values, all spellings of names in all roles, all kinds of comments at all places, all places where a type can be defined",
     "The tests compare generated text for fixed schemas with stored text; no generated Rust or Go and only one generated C++ file is compiled, templates are instantiated only where used.",
     [GEN + "templates/cpp", GEN + "templates/rust", GEN + "templates/py/python.jinja2", GEN + "templates/go", GEN + "generators/cpp.py", GEN + "generators/rust.py", GEN + "generators/python.py", GEN + "generators/go.py"],
     [("templates of the back ends", GEN + "templates"), ("filters: escaping, comments, types", GEN + "generators")],
     "exploration", "bounded exhaustive enumeration of schemas; the generated code of every back end is compiled by clang and g++ (all template members instantiated), rustc, CPython and Go",
     "Complete over the stated alphabets; trusts the compilers of the sandbox as the definition of the languages.")

prop("P28", "C++ and Rust structure values behave as the values of their fields",
     "Every generated C++ and Rust structure, wherever its bytes lie, compares equal and hashes equally exactly as the values of its fields demand, is copied (copy_fields, Struct, assignment) completely and without touching other memory, converts to and from its owned form losslessly, tells absent optional fields apart from present ones and prints exactly its fields with their values and names of enumerators. A fresh owned structure holds zeros.",
     ["inputs"],
     "all pairs of values of an alphabet of extremes for structures of 1 to 9 fields of all types, widths, alignments and decorations",
     "Tests compare and print one or two values of one or two structures.",
     [CPP + "Hash.h", CPP + "Copy.h", CPP + "Struct.h", GEN + "templates/cpp/structure.jinja2", GEN + "templates/rust/structure.jinja2"],
     [("hash, copy and owned forms", CPP + "Hash.h"), ("comparison and printing", GEN + "templates/cpp/structure.jinja2")],
     "exploration", "bounded exhaustive enumeration of pairs of values on the compiled generated code (ASan/UBSan) against the values themselves",
     "Complete over the stated alphabet. operator< of C++ structures with several fields is no order (known finding).")

prop("P31", "The generator's command line writes exactly its output, or reports an error",
     "Whatever the directory held and whatever was generated before, an invocation of the generator's command line either reports success and leaves exactly the code of the given schema and language in the output file (creating its directories, replacing any earlier content), or, given invalid input or an output it cannot create, reports an error by its exit code and leaves every file as it was. No invocation touches the schema or any other file.",
     ["histories", "inputs"],
     "all histories of invocations over schemas (valid, invalid, unreadable) x languages x outputs in every reachable state of the directory; all forms of the arguments",
     "Tests call the engine and compare text; the command line has no test.",
     [GEN + "app.py", GEN + "engine.py"],
     [("reading, rendering, writing", GEN + "app.py")],
     "model_checking", "explicit-state exploration of the directory: every invocation of the alphabet is executed by the real command line in every reachable state and compared with the model",
     "Histories of any length over the alphabet, as all reachable states are visited.")

prop("P32", "Rust containers and views hold and show exactly what was put into them",
     "After every sequence of operations a Rust Vector, external vector, multivector or view behaves as the list of its elements: length, elements, slices, every way of iterating from both ends, size hints, bytes and printed text are those of the list; new elements are zero-initialized, also after removing others or reserving. Converting bytes to views accepts exactly the sizes that fit, raw data returns exactly the zero-terminated string at each position.",
     ["histories", "inputs"],
     "all sequences of up to 5 operations on vectors, 6-7 steps on external vectors and multivectors, every slice and every mixture of steps from both ends; all raw data of up to 6 bytes",
     "Tests fill a few containers and read them forwards.",
     [RS + "vector.rs", RS + "multivector.rs", RS + "multiarrayview.rs", RS + "rawdata.rs", RS + "structs.rs", GEN + "templates/rust/variadic.jinja2", GEN + "templates/rust/index.jinja2"],
     [("growing, slicing, sentinels", RS + "vector.rs"), ("iterators over items", RS + "multiarrayview.rs"), ("types and offsets of elements", GEN + "templates/rust/variadic.jinja2")],
     "exploration", "bounded exhaustive enumeration of histories of operations on the compiled library and generated code against lists",
     "Complete up to the stated lengths; 5 shapes of structures (with and without ranges).")

prop("P33", "Interrupted or failed Rust and Python writes never pass for complete ones",
     "If writing an archive to files in Rust or Python stops at any point - the process ends, a system call fails once or from then on, a write is short, the disk is full after any byte - then every resource on disk is absent, incomplete in a way its format reveals, or complete and exact; opening never accepts an archive that lacks a mandatory resource and never panics. Success is reported only if every file is exactly that of the complete archive, whatever failed in between; a call that failed in Python can be repeated.",
     ["crash_points", "fault_sequences", "histories"],
     "every system call that changes files and every byte written, of the writing of all kinds of resources in several orders and ways, with and without going on after the failure",
     "No test injects a crash or a failing call.",
     [RS + "storage.rs", RS + "filestorage.rs", RS + "vector.rs", RS + "multivector.rs", PYLIB + "archive_builder.py", PYLIB + "file_resource_writer.py", PYLIB + "resource_storage.py"],
     [("size is written when the resource is closed", RS + "storage.rs"), ("data, size and padding in Python", PYLIB + "archive_builder.py")],
     "fault_enumeration", "the real builders run with a preloaded library that ends the process, or fails or shortens its calls, at every point; then the files are compared and opened with the real readers",
     "Crash model: what was written reaches the disk in order; a fresh directory. Writes that are larger than 32 MB are failed at every call, not at every byte.")

prop("P34", "Go reads what was written, and reports missing or mismatching resources",
     "Opening an archive with generated Go code, from files or from memory, gives through every accessor - single elements, slices with any step, items of multivectors, raw data, instances, resources of subarchives - exactly the values stored, their sizes and a JSON description of them. Resources that are not there are shown as not open, without disturbing the others; a resource that is shorter than its frame, or whose schema is missing, empty or different in any character, makes opening fail with the error that says so. Closing closes every resource.",
     ["inputs", "fault_sequences"],
     "all vectors, items and raw data of bounded sizes over an alphabet of extremes; every subset of absent resources; every fault of every file, from files and from memory",
     "The Go tests read one archive; they are not run by the suite of this repository.",
     ["flatdata-go/flatdata/resource.go", "flatdata-go/flatdata/reader.go", GEN + "templates/go", GEN + "generators/go.py"],
     [("storages: checks of frames and schemas", "flatdata-go/flatdata/resource.go"), ("accessors of resources", GEN + "templates/go")],
     "exploration", "bounded exhaustive enumeration of contents, absent resources and faulty files on the compiled generated code and runtime against the values written",
     "Complete over the stated alphabet, for the subset of schemas the Go back end (beta) supports. Items of several elements of one type, sizes of multivectors and printing of absent resources are known findings.")

prop("P35", "Dot: a schema is drawn exactly",
     "For every accepted schema the dot back end yields a graph that Graphviz reads without complaint, and that shows, in the right nesting of namespaces, exactly the archives of the schema, their resources with kind and optionality - bound resources as one -, in each the structures it holds with all fields, types and widths, and exactly one edge from the field to the resource for each explicit reference. A type is written completely or relative to the namespace of its structure, so that it denotes the enumeration it is.",
     ["programs"],
     "all combinations of fields, of 9 namespaces with related names for enumerations, structures and archives, of up to 3 resources, of bindings, and of references between all kinds of resources",
     "Tests compare stored text; nobody reads the graphs.",
     [GEN + "generators/dot.py", GEN + "templates/dot", GEN + "tree/syntax_tree.py", GEN + "tree/nodes/resources"],
     [("type of a field relative to its namespace", GEN + "generators/dot.py"), ("resources, structures, references", GEN + "templates/dot")],
     "exploration", "bounded exhaustive enumeration of schemas; the graph, read by Graphviz, is compared with an independent model of the schema",
     "Complete over the stated alphabet; trusts Graphviz as the definition of the language.")

prop("P36", "Resources and tar files beyond 2, 4 and 8 GB are written and read exactly",
     "Sizes are 64 bit: a vector, multivector, item, index or raw data whose bytes or number of elements lie around 2^31, 2^32, 2^33, in files or anywhere in a tar file of such a size, is read by C++, Rust and Python with its exact size, and every element, however it is reached, with its exact value. A stated size that differs from the one there is by any amount, multiples of 2^31 or 2^32 too, is no valid one where sizes are checked. What C++ and Rust write beyond 4 GB is exact in every byte.",
     ["inputs", "configurations"],
     "all kinds of resources x elements of 1, 3, 8, 37 bytes x sizes and positions at, before and after 2^31, 2^32, 2^33 (2^35) x files, first and last in a tar file x every form of access",
     "Tests use a few hundred bytes; a 32-bit size or offset passes them all.",
     [CPP + "ArrayView.h", CPP + "MultiArrayView.h", CPP + "ExternalVector.h", CPP + "MultiVector.h", CPP + "internal/ResourceStorage.inl", "flatdata-cpp/src/TarReader.cpp", RS + "storage.rs", RS + "vector.rs", RS + "multivector.rs", RS + "multiarrayview.rs", RS + "tarstorage.rs", PYLIB + "resources.py", PYLIB + "data_access.py", PYLIB + "tar_archive_resource_storage.py"],
     [("offsets of elements", CPP + "ArrayView.h"), ("offsets of members", "flatdata-cpp/src/TarReader.cpp"), ("writing", CPP + "internal/ResourceStorage.inl")],
     "exploration", "bounded exhaustive enumeration of resources around the limits of 31, 32 and 33 bits as sparse files, read and written by the compiled code and the Python library, against the bytes put there",
     "Every element at or next to a limit; the rest of the files is zero. Go is not looked at.")

prop("P37", "Schemas are exactly what the grammar says; layout and comments mean nothing",
     "The generator accepts exactly the texts that the documented schema language allows: a text that differs from a schema in any token or character is either another schema, and is then read as that, or it is rejected with an error that says so. Blanks, line ends and comments between tokens change neither acceptance nor meaning nor generated code. A comment that documents a definition, field, resource or enumerator arrives, in the languages that show it, as a comment in front of what it documents, whatever it contains, and never as code.",
     ["programs", "inputs"],
     "every deletion of an interval of tokens, repetition, exchange, replacement and insertion of 65 tokens, every edit of a character, every blank and comment at every gap, pairs of edits of a small schema; 17 forms of comments in 21 places",
     "Tests parse some dozens of well-formed schemas and few malformed ones.",
     [GEN + "grammar.py", GEN + "tree/builder.py", GEN + "generators/cpp.py", GEN + "generators/rust.py", GEN + "generators/python.py", GEN + "templates"],
     [("grammar", GEN + "grammar.py"), ("tree of the parsed text", GEN + "tree/builder.py"), ("comments", GEN + "generators/cpp.py")],
     "exploration", "bounded exhaustive enumeration of edits of schemas; the real generator is compared with an independent recursive-descent grammar and the canonical text",
     "Complete for the stated edits of two schemas that use every construct. Where the documentation does not say whether a comment may stand, rejecting it is not judged, but if it is accepted it changes nothing.")

prop("P38", "Archives live as long as their handles, and reading has no side effects",
     "An opened archive, its copies, clones, sub-archives and the views taken from them go on reading exactly what was there when they were opened, however the other handles are used, copied, moved, assigned and ended, and when files are replaced or removed, or the archive is opened again through the same or another storage. Reading archives, complete or damaged, from a directory or tar, changes nothing in the file system, needs no right to write, and reads the same for every user.",
     ["histories", "configurations"],
     "all sequences of 6 operations on handles (open, copy, move, end, sub-archive, replace and remove files, tar and memory) in C++, Rust and Python; all single faults of an archive read with and without rights to write",
     "Tests open an archive once and read it while everything else is alive, as root.",
     [CPP + "FileResourceStorage.h", CPP + "MemoryMappedFileStorage.h", CPP + "TarArchiveResourceStorage.h", CPP + "MemoryResourceStorage.h", CPP + "Archive.h", RS + "filestorage.rs", RS + "memstorage.rs", RS + "tarstorage.rs", PYLIB + "file_resource_storage.py", PYLIB + "tar_archive_resource_storage.py", PYLIB + "archive.py"],
     [("mapped files", CPP + "MemoryMappedFileStorage.h"), ("tar", CPP + "TarArchiveResourceStorage.h"), ("Rust storage", RS + "filestorage.rs")],
     "exploration", "exhaustive enumeration of histories of handles with hashing of their states, run by the real libraries under AddressSanitizer, against a model of which files each handle reads; enumeration of damaged archives with snapshots of the file system",
     "Files are replaced or removed, not written in place; a view of C++ is used while its storage or an archive opened from it lives. Go is not looked at.")

prop("P39", "Build integration generates each schema in place and reports every failure",
     "generate() of the Rust library and flatdata_generate_source() of CMake generate exactly the code of each *.flatdata file below (or at) the given path, at the same relative place of the destination, whatever names, depths, links and other files there are, and touch nothing else. A generator that cannot be found, fails, or is killed, and a source or destination that cannot be read or written, is reported as an error that names the schema, and never as a success. Cargo is told to watch every schema. CMake rebuilds what depends on a schema after each edit of it and of nothing else, and never builds with code of a schema that could not be generated.",
     ["programs", "configurations", "fault_sequences", "histories"],
     "all trees of up to 3 of 22 kinds of entries; all generators that fail at one call in one of 5 ways; missing and unwritable sources and destinations; all histories of 2 edits and builds, and edits of every source of the generator, in CMake",
     "Tests call generate() once, on one tree, with the generator that works.",
     ["flatdata-rs/lib/src/generator.rs", "flatdata-cpp/cmake/flatdata/GenerateSource.cmake", GEN + "app.py"],
     [("Rust", "flatdata-rs/lib/src/generator.rs"), ("CMake", "flatdata-cpp/cmake/flatdata/GenerateSource.cmake")],
     "exploration", "exhaustive enumeration of trees, faults and histories of edits, run by the real build functions with a stand-in generator that records its calls, and with the real generator, against a model of what must exist afterwards",
     "Complete for the stated alphabet of names. The virtual environment that Rust sets up with the network is replaced by one that is there.")

prop("P40", "Access statistics and dumps of C++ tell what was read and stored",
     "With DEBUG_DATA_ACCESS_STATISTICS the library reads the same values as without, and the statistics list, for each mapping of a resource that was closed, exactly the bytes and pages that were read since it was opened or the statistics were cleared, which bytes of the structures stay unused, the bytes that were read from elsewhere, and the resources that were not closed, for every order of reads, copies of handles and closings, and for reads by several threads. hexdump() and bindump() of an archive in memory show each resource once, with all its bytes in order, and schemas only on demand, before and after it is read.",
     ["histories", "inputs", "schedules"],
     "all single reads, pairs and triples of reads from 53, in 23 histories of opening, copying, clearing, closing and leaking handles, in files and memory; concurrent reads of one word; dumps of all lengths to 36 and all bytes",
     "Nothing tests the statistics; the dumps are tested on one archive.",
     [CPP + "DebugDataAccessStatistics.h", CPP + "internal/Reader.h", CPP + "MemoryMappedFileStorage.h", CPP + "MemoryResourceStorage.h"],
     [("statistics", CPP + "DebugDataAccessStatistics.h"), ("dumps", CPP + "MemoryResourceStorage.h")],
     "exploration", "exhaustive enumeration of reads in histories of handles, each run in a process of its own by the real library; the report is compared with a model of the bytes read; races by ThreadSanitizer; dumps are decoded and compared with the files of the same archive",
     "Reads are of fields that end where words end. Archives in tars are not registered as resources, and not looked at.")
