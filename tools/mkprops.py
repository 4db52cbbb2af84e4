import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
L="src/load.c";S="src/save.c";C="src/copy.c";F="src/free.c";D="src/data.h";U="src/utf8.c";T="src/util.h";M="src/mem.h";H="include/cyaml/cyaml.h"
p("C01","A conforming document is loaded to exactly the declared places",
 "For any schema and any document that conforms to it, load succeeds and every value the document names is stored, with exactly the value the YAML denotes, at the offset, size and level of indirection the schema declares, whatever the nesting depth, member layout, key order, YAML presentation style, or number of fields and entries. Every byte of the loaded structure that no present field, entry count or default owns is zero.",
 ["inputs","configurations"],
 "Every schema shape (type x data size x flags x pointer kind x layout x nesting) with every conforming document over it, within the bounds of the generator, including the size ladders (fields, entries, depth) past every internal growth threshold.",
 "Unit tests fix one layout and one document per type; combinations of layout, indirection, nesting and ordering, and sizes beyond the internal stack / bitmap growth steps, are reached by a handful of points.",
 [L,D,H],[("event/state dispatch","src/load.c: cyaml__load_event, cyaml__stack_push"),("placement of values","src/load.c: cyaml__map_value, cyaml__seq_entry, cyaml__data_handle_pointer; src/data.h: cyaml_data_write")],
 [("state stack","one entry per open YAML collection, grown in steps of 16"),("fields_set","bitmap of the mapping fields already seen")],["bytes of the structure returned by cyaml_load_data"])
p("C02","A document is accepted exactly when it conforms to the schema",
 "Load succeeds if and only if the document conforms to the schema: only known keys (unless configured to be ignored), no field given twice, every non-optional field present at every level, every value of the YAML kind and range its type requires, and entry counts and string lengths within limits. A document with one violation is rejected with the error code documented for that violation, and on any failure the caller's data and count outputs are left untouched.",
 ["inputs","configurations"],
 "Every placement of one or two violations (unknown, duplicate or missing key, wrong kind, out-of-range value, too few / many entries, string length, non-scalar key, bad alias) in every position of every generated schema and conforming document, under every configuration flag.",
 "Each error test plants one violation in one position of one schema; whether the check applies at every depth, for every field index and after every history of siblings is left open.",
 [L,H],[("per-mapping required/duplicate tracking","src/load.c: cyaml__mapping_bitfieid_validate, cyaml__map_key_check_field"),("kind check","src/load.c: cyaml__validate_event_type_for_schema"),("limits","src/load.c: cyaml__seq_entry, cyaml__seq_end, cyaml__store_string")],
 [("fields_set","bitmap of fields seen in the open mapping")],["return code and output parameters of cyaml_load_data"])
p("C03","Scalar text is converted exactly or rejected, never wrapped or truncated",
 "For INT, UINT, ENUM, BOOL and FLOAT values of every supported data size, a scalar (decimal, octal or hexadecimal for integers) is stored as exactly the number it denotes when that number fits both the data size and the schema's min/max, and is otherwise rejected with an invalid-value error; a negative number is never accepted for an unsigned value. Floats are the nearest representable value, and with the strict flag a value that would overflow or underflow the member's own precision is rejected; booleans are false exactly for the documented false words in any letter case, and enum strings give their schema value with numeric fallback only when not strict.",
 ["inputs","configurations"],
 "Every data size 1..8, every boundary of every size and of 64 bits with neighbours, every radix / sign / malformed spelling, every min/max relation, strict and non-strict, as top-level, field, pointer and sequence-entry values.",
 "Tests sample a few sizes (mostly 1, 2, 4, 8) and values; off-by-one at a boundary of one size, or wrapping of extreme text, can hide between the samples.",
 [L,D],[("integer store and limits","src/load.c: cyaml__store_int, cyaml__store_uint, cyaml__validate_int, cyaml__validate_uint"),("text parsing","src/load.c: cyaml__read_int, cyaml__read_uint64_t, cyaml__read_float, cyaml__read_bool, cyaml__read_enum")],None,["stored member bytes and return code of cyaml_load_data"])
p("C04","Flags and bitfields pack and unpack bit-exactly",
 "Loading a FLAGS value stores the bitwise OR of the values of the listed flags (plus any numeric entries when not strict), and loading a BITFIELD stores each named number at its declared bit offset; an unknown name, or a number that does not fit the bits available, is rejected. Saving writes exactly the names whose bits are set (and each non-zero bit value under its name), so that loading the text again gives the same bits; bits no name covers are written numerically for non-strict flags and make the save fail for strict flags.",
 ["inputs","configurations"],
 "Every subset and order of flags, every bit layout (offset, width) for data sizes 1..8 at boundary values, every bit pattern of one byte, numeric entries at the limits of the data size, strict and non-strict.",
 "A few flag sets and one bitfield layout are tested; shifts and masks at word boundaries (bit 31/32/63, width 64) and numeric remainders are not enumerated.",
 [L,S],[("load bits","src/load.c: cyaml__set_flag, cyaml__read_flags_value, cyaml__set_bitval, cyaml__read_bitfield_value"),("save bits","src/save.c: cyaml__emit_flags_sequence, cyaml__emit_bitfield_mapping")],None,["stored bits after load, YAML text after save"])
p("C05","Sequence counts are exact and entry limits are enforced",
 "A sequence with n entries loads if and only if min <= n <= max (n equal to the fixed count for a fixed sequence), and then the entries are stored contiguously in order and the count reported, in the count member of whatever integer size or in the top-level count output, is exactly n. A count that the count member cannot represent is an error, never a wrapped count; a variable-length sequence nested directly in a sequence is refused.",
 ["inputs","configurations"],
 "Every n from 0 to past each limit for every (min,max), entry type, entry indirection, count member size 1..8 and count member position, including n past the range of narrow count members and several sequences in one mapping.",
 "Tests use one count size and limits near the sample length; they do not vary n across each limit for each storage form, nor drive a count past the range of its member.",
 [L,D,H],[("entry append and count write-back","src/load.c: cyaml__seq_entry, cyaml__seq_end"),("growth of the entry array","src/load.c: cyaml__data_handle_pointer")],
 [("sequence.count","entries seen so far in the open sequence")],["count member / seq_count_out and array content after cyaml_load_data"])
p("C06","A missing optional field gets precisely its schema default",
 "After a successful load every optional field the document omits holds the default its schema gives (numbers, strings, and deep copies of default mappings and sequences with the matching entry count), or zero / NULL when the schema gives none, at any nesting level and for any pattern of omitted fields. Fields that are present are unaffected, and defaults are fresh memory that shares nothing with the schema or with other loads and is released by cyaml_free.",
 ["inputs","configurations"],
 "Every subset of present/absent optional fields over every type, data size and indirection with every kind of default, in mappings of up to 70 fields, nested in mappings and sequences.",
 "Each test leaves out a single field; which defaults apply depends on the set of present keys, the field index and the storage form, a product the tests do not cover.",
 [L,C],[("default application at mapping end","src/load.c: cyaml__mapping_bitfieid_validate, cyaml__field_apply_default, cyaml__field_scalar_apply_default"),("deep copy of defaults","src/copy.c: cyaml_copy")],None,["structure returned by cyaml_load_data"])
p("C07","An alias means a fresh copy of its anchored node",
 "A document that uses anchors and aliases, wherever they appear (keys, scalars, sequences, mappings, nested inside other anchors, inside ignored content, redefined), loads with the same result as the document with each alias replaced by a copy of the node most recently anchored with that name, and each occurrence gets its own storage. An alias to a name not yet completely defined is rejected as an invalid alias, and with aliases disabled any alias is rejected while anchors remain harmless.",
 ["inputs","configurations"],
 "Every assignment of anchors and aliases to the nodes of every small document (up to 6 node positions, 2 anchor names), including nesting and redefinition, under both alias configurations.",
 "A dozen hand-written documents are tested; record / replay bookkeeping depends on nesting and order of anchors and aliases, whose combinations are too many to write by hand.",
 [L],[("recording of anchored events","src/load.c: cyaml__handle_record, cyaml__record_stack_push, cyaml__record_stack_pop, cyaml__handle_anchor"),("replay","src/load.c: cyaml__handle_alias, cyaml__handle_replay")],
 [("event record","events recorded while any anchor is open"),("progress/complete","anchors being recorded / replayable")],["result of cyaml_load_data compared with the expanded document"])
p("C08","Ignored content has no influence on the rest of the document",
 "With unknown keys ignored by configuration, or for fields declared as ignored, adding such keys with values of any shape, anywhere in any mapping and any number of times, changes neither the outcome nor the loaded data of the remaining content. Without that configuration the same unknown key makes the load fail with the invalid-key error.",
 ["inputs","configurations"],
 "Every insertion position of every ignored value shape (scalars, nested collections, collections holding known keys, anchors and aliases) at every mapping level of every generated document.",
 "Tests insert a few ignored values; depth bookkeeping while skipping has to be right for every shape and place.",
 [L],[("skipping","src/load.c: cyaml__consume_ignored_value, cyaml__map_key, cyaml__map_key_check_field")],None,["result of cyaml_load_data with and without the inserted content"])
p("C09","Name matching follows the case rules in force, for every Latin letter",
 "Keys, enum, flag and bitfield names match byte-for-byte when case sensitivity applies, and ignoring letter case (for ASCII, Latin-1 and Latin Extended-A/B letters whose other-case form lies in the same range) when case insensitivity applies; names differing in anything but letter case never match. A value's own case-insensitive flag takes precedence over its case-sensitive flag, which takes precedence over the configuration.",
 ["inputs","configurations"],
 "Every pair of code points below U+0250, every flag/config combination, every use (mapping key, enum, flags, bitfield), and every short byte string (including malformed UTF-8 in schema names) against every other.",
 "Tests compare a list of sample words; the mapping is a table of ranges where one wrong bound only shows for one letter.",
 [U,T],[("case folding","src/utf8.c: cyaml_utf8_to_lower, cyaml_utf8_casecmp, cyaml_utf8_get_codepoint"),("rule selection","src/util.h: cyaml__is_case_sensitive, cyaml__strcmp")],None,["which field / enum value a key or string selects in cyaml_load_data"])
p("C10","NULL values follow the declared nullability in load, save and copy",
 "A value declared nullable loads as a NULL pointer exactly when its YAML scalar is empty (or, where NULL strings are also enabled, is one of ~, null, Null, NULL) and as an ordinary value otherwise; a value not declared nullable never loads as NULL from such text. Saving leaves out an optional field whose value is a NULL pointer (unless a missing field would be given a default: then it states the NULL), writes any other NULL pointer as an empty or null value where nullable, and otherwise fails with an invalid-value error; copying preserves NULLs wherever load can produce them.",
 ["inputs","configurations"],
 "Every type x {pointer, nullable, null-string} x optional x {field, sequence entry, top level} x every null spelling and near-miss, for load, save after load, and copy after load.",
 "A handful of null cases are tested per function; the interaction of the three flag kinds with type, position and operation is a product.",
 [L,S,C],[("load null","src/load.c: cyaml__string_is_null_ptr, cyaml__read_value"),("save null","src/save.c: cyaml__write_value, cyaml__write_mapping"),("copy null","src/copy.c: cyaml__data_handle_pointer, cyaml__clone_mapping")],None,["pointers after load/copy, text after save"])
p("C11","Validation callbacks see each loaded value once and their veto is final",
 "During a load the callback of every schema value that has one is called exactly once per stored document value that passed the type, range and length checks, with the client's context, that value's schema and the final value (for mappings the complete structure, for sequences the array of entries and its count). If any callback returns false the load fails with an invalid-value error and nothing leaks; if all return true the result is the same as without callbacks.",
 ["inputs","configurations"],
 "Every generated schema with callbacks on every value, every conforming and several non-conforming documents, and every choice of which single call vetoes.",
 "Tests give one callback at a time in one storage form (embedded arrays only for sequences); values reached through pointers, sequences, nesting or aliases, and a veto at each position, are not tried.",
 [L],[("callback sites","src/load.c: cyaml__validate_int, cyaml__store_int, cyaml__store_uint, cyaml__store_float, cyaml__store_string, cyaml__map_end, cyaml__seq_end")],None,["sequence of callback invocations, return code"])
p("C12","Saving and reloading gives back the same data",
 "Whenever saving data that satisfies its schema succeeds, loading the produced text with the same schema and configuration succeeds and yields data equal to the original, including every integer, enum, flag and bitfield bit, every float and double bit pattern, NULL pointers, entry counts and string bytes, under every style and delimiter setting. Data obtained from a successful load (other than a NULL or empty top-level value) can be saved, and saving it again after reloading gives the same text. (Not part of the data: ignored fields, and which NaN a NaN is.)",
 ["inputs","configurations"],
 "Every generated schema and data value (including values that need quoting, multi-line and non-ASCII strings, extreme numbers), under every style flag, scalar style and configuration combination.",
 "Tests save fixed structures and compare text; that every value survives the text form at every data size and style is a statement over all values.",
 [S,L],[("number formatting","src/save.c: cyaml__get_int, cyaml__get_uint, cyaml__get_float, cyaml__get_double, cyaml_sign_pad"),("structure emission","src/save.c: cyaml__write_mapping, cyaml__write_sequence, cyaml__write_value"),("load","src/load.c: cyaml__load")],None,["data before save and after reload"])
p("C13","Saved text states exactly the data, in schema order and requested style",
 "A successful save produces one YAML document holding exactly the fields of the data in schema order (ignored fields and NULL optional pointers left out), each value in its documented text form, with each collection and scalar in the style chosen by its own flags, else by the configuration, with the documented precedence, and with document delimiters exactly when configured. Saving to memory and to a file produce identical bytes of any size.",
 ["inputs","configurations"],
 "Every generated schema and data under every combination of block/flow and scalar-style flags on values and configuration and the delimiter setting, and output sizes across every buffer boundary up to 200 kB.",
 "Tests compare a few literal texts; style precedence per value and configuration and output growth across buffer flushes are combinations they do not reach.",
 [S],[("styles","src/save.c: cyaml__get_emit_style, cyaml__get_emit_style_seq, cyaml__get_emit_style_map, cyaml__get_emit_style_scalar"),("output buffer","src/save.c: cyaml__buffer_handler"),("field walk","src/save.c: cyaml__write_mapping, cyaml__write_sequence")],None,["bytes produced by cyaml_save_data / cyaml_save_file"])
p("C14","Data that the schema cannot express is refused on save, outputs untouched",
 "Saving fails with the documented error, whatever the position of the offending value, for a NULL pointer that the schema does not allow, a strict enum value with no matching string, strict flags with unnamed bits, an unsupported data size or type, a bit definition beyond the bitfield's size, an unequal fixed-sequence min/max, or a variable sequence nested in a sequence. On any save failure the output pointer and length are untouched and nothing leaks; the source data is never modified by saving.",
 ["inputs","configurations"],
 "Every placement of each kind of unsaveable value or malformed schema node at every position of every generated structure.",
 "Each error has a single test at one position, mostly the first field of a flat mapping.",
 [S],[("value checks","src/save.c: cyaml__write_value, cyaml__write_enum, cyaml__emit_flags_sequence, cyaml__write_sequence"),("failure path","src/save.c: cyaml_save_data, cyaml__save")],None,["return code, output parameters, source data after cyaml_save_data"])
p("C15","A copy is equal to, and fully independent of, its source",
 "Copying any data that load can produce succeeds and gives a structure equal to the source in every field, count and NULL, in which every pointer refers to newly allocated memory of its own; the source is unchanged, and freeing or overwriting either one leaves the other intact. Copying also works for top-level values stored in caller-provided memory, writing only that value's bytes; on failure the output is untouched.",
 ["inputs","configurations"],
 "Every generated schema and every data value load can produce for it (including empty sequences, NULLs, omitted optional fields, nested fixed sequences and pointer entries), top-level pointer and non-pointer forms.",
 "Copy tests cover one value type at a time; sizes computed from entry size, count and indirection, and the treatment of NULL / empty parts, depend on combinations.",
 [C],[("allocation sizes","src/copy.c: cyaml__data_handle_pointer, cyaml__get_data_len"),("walk","src/copy.c: cyaml__clone_mapping, cyaml__clone_sequence, cyaml__clone_value")],None,["memory of source and copy after cyaml_copy"])
p("C16","Every allocation goes through the client allocator and is freed exactly once",
 "All memory handed to the client, and all memory libcyaml allocates for its own use in a call, is obtained from the configured memory function with the configured context; when any call returns (success or failure) only memory reachable from its outputs remains, and cyaml_free on loaded or copied data releases each block exactly once and touches nothing else. This holds for every schema shape, for data left partial by an error at any point, and for NULL or empty parts.",
 ["inputs","configurations","histories"],
 "Every generated schema and document, conforming or failing at every position, followed by free; and every load/copy/free ordering of two objects.",
 "Tests free a few shapes, and leak checking only sees those; stride and ownership errors appear only for particular nestings (fixed sequences of pointers in sequences, say) or failure points.",
 [F,L,C,M],[("free walk","src/free.c: cyaml__free_value, cyaml__free_sequence, cyaml__free_mapping"),("failure clean-up","src/load.c: cyaml__load (out label), cyaml__free_recording; src/copy.c: cyaml_copy (out label)")],None,["calls made to the client memory function"])
p("C17","Any allocation failure is reported as out-of-memory with no damage",
 "If the client allocator fails at any one request, or from any request onwards, during load, save, copy or free, the call returns an out-of-memory error (never success with missing data), leaves its outputs untouched, leaks nothing, frees nothing twice and touches no invalid memory. If no request fails the call behaves as usual, and the same call made afterwards with memory available succeeds. If instead the C library cannot provide libyaml with memory, the call likewise returns an error, with nothing leaked or damaged.",
 ["fault_sequences","inputs"],
 "Every allocation index k of every operation on every generated schema/document family, failing once at k and failing from k onwards.",
 "The suite fails allocations for one sample document per operation; each container, anchor, default and growth path adds failure points of its own.",
 [L,S,C,M],[("allocation checks","src/load.c: cyaml__data_handle_pointer, cyaml__stack_ensure, cyaml__handle_record, cyaml__handle_anchor, cyaml__new_anchor, cyaml__mapping_bitfieid_create; src/save.c: cyaml__buffer_handler; src/copy.c: cyaml__data_handle_pointer")],None,["return code, outputs and live allocations"])
p("C18","Loading from a file equals loading its bytes, however reads are split",
 "Loading a file gives the same result, error or data, as loading its content from memory, for every way the environment splits the reads, and every read or open error makes the load fail with an error and no leak. The file is closed exactly once on every path.",
 ["fault_sequences","inputs"],
 "Every split of the content into reads (single bytes, one short read at each offset, at each multiple of the internal buffer), a read error at each offset and at end, and open failure, for documents smaller and larger than the parser's buffers.",
 "File tests read small regular files in one read; short reads and errors never occur there.",
 [L],[("file path","src/load.c: cyaml_load_file")],None,["result of cyaml_load_file under an interposed stream"])
p("C19","A file save reports success only if every byte was written",
 "Saving to a file returns success only when the complete text, identical to that of saving to memory, has been accepted by the file system including at close; any failure to open, write, flush or close makes it return an error. The file is closed exactly once on every path, with nothing leaked.",
 ["fault_sequences","inputs"],
 "A failure at every write call, after every byte count, and at close, for outputs smaller and larger than the stdio and emitter buffers, plus a full device.",
 "Tests save to a working file system only, so no failure path of writing is executed.",
 [S],[("file path","src/save.c: cyaml_save_file, cyaml__save (flush)")],None,["return code and bytes received by the interposed stream"])
p("C20","The outcome of a call does not depend on earlier calls",
 "Every load, save, copy and free gives the same outcome after any history of other calls on this or other data, successful or failed, as it gives in a fresh process. Objects created by earlier calls, schemas and configurations are never changed by later calls, except by freeing that object.",
 ["histories"],
 "Every operation sequence up to the depth bound over an alphabet of loads (valid, invalid, with anchors, with defaults), saves, copies, frees, failing allocations, on several live objects and schemas.",
 "Tests run one operation on fresh data; interference between operations needs sequences.",
 [L,S,C,F],[("per-call context","src/load.c: cyaml_ctx; src/save.c: cyaml_ctx; src/copy.c: cyaml_ctx"),("any static storage","src/save.c: cyaml__get_int, cyaml__get_uint, cyaml__get_float, cyaml__get_double")],None,["outcome digests of every call in the history"])
p("C21","Concurrent and re-entrant calls on distinct data do not interfere",
 "Calls made at the same time from several threads on distinct data, sharing read-only schemas and configurations, each give the result they give alone, for every interleaving and without data races. The same holds for calls made from inside a log, memory or validation callback of another call.",
 ["schedules"],
 "All interleavings of two threads (and selected three-thread sets) running load, save, copy and free with scheduling points at the library's accesses to memory that more than one thread touches and at every callback, up to the preemption bound; every callback position for nested calls.",
 "The suite is single-threaded and its callbacks never call back into the library.",
 [S,L,C,F],[("formatting buffers","src/save.c: cyaml__get_int, cyaml__get_uint, cyaml__get_float, cyaml__get_double"),("lookup tables","src/load.c: cyaml__read_bool, cyaml__load_event; src/util.c: cyaml_strerror")],None,["per-thread outcome digests; accesses to shared writable memory"])
p("C22","Logging is filtered by level and never changes the outcome",
 "The log function is called only for messages at or above the configured level, with the configured context and a valid format and arguments, and the messages seen at a level are exactly the ones of that level or above from the most verbose run; the standard log function writes each to stderr with its level. The outcome and data of every operation are the same at every level and with no log function; the warning for ignored keys appears at warning level exactly when configured. A call that succeeds reports nothing at error level; a load, save or copy that fails for what the document or data is reports at least one error.",
 ["configurations","inputs"],
 "Every log level, with and without a log function, over every generated operation, valid and failing.",
 "Tests run with logging at one level or none; a message built from an invalid pointer or logged at the wrong level is only seen if that very path is formatted.",
 [T,L,S,C,F],[("level filter","src/util.h: cyaml__log"),("messages","src/load.c, src/save.c, src/copy.c, src/free.c: cyaml__log call sites")],None,["sequence of log calls at each level"])
p("C23","Failure backtraces name the offending location",
 "When a load, save or copy fails inside a value, the error-level backtrace lists, innermost first, every enclosing mapping field by key and every enclosing sequence entry by index (counted from 1), on the path from the top level to the value that failed, and nothing else. For loads each line and column (counted from 1) is that of the value or key concerned in the YAML text.",
 ["inputs"],
 "Every position of a failing value in every generated nested structure, over block and flow layouts, for load, save and copy.",
 "No test inspects backtrace content.",
 [L,S,C],[("backtraces","src/load.c: cyaml__backtrace; src/save.c: cyaml__backtrace; src/copy.c: cyaml__backtrace")],None,["log messages at error level"])
p("C24","No input bytes can crash, hang, corrupt or leak",
 "For every byte string given as YAML and every valid schema, load returns: either successfully, with data that satisfies the schema (every limit respected) and can be saved, copied and freed, or with an error code, with outputs untouched. It never reads or writes out of bounds, never leaks, never aborts, and finishes in time bounded by the input and its alias expansion.",
 ["inputs"],
 "Every string of YAML tokens up to the length bound over an alphabet of structural tokens, every single- and double-byte mutation and truncation of seed documents, against schemas with every value type.",
 "Error tests list specific malformed documents; arbitrary byte strings reach combinations of parser events and states nobody wrote down.",
 [L],[("state/event table","src/load.c: cyaml__load_event, cyaml__read_flags_value, cyaml__read_bitfield_value, cyaml__consume_ignored_value")],None,["process health, memory checker, outputs"])
p("C25","Bad parameters and malformed schemas are reported, not acted upon",
 "A NULL configuration, memory function, schema or data argument, a wrong sequence-count argument, a non-pointer top level, a non-NULL copy target, an unsupported data or count size (for load and save), an invalid type, a string minimum above its maximum (for load), an unequal fixed-sequence min/max, a bit definition beyond the value, or a sequence nested in a sequence gives the documented error code from every function it applies to. The outputs are untouched, nothing leaks or crashes, and every error code has its own non-empty message, with any other number giving the invalid-code message.",
 ["configurations","inputs"],
 "Every combination of bad arguments for every API function, every malformation at every position of every generated schema, and every integer as an error code over the enum range and its surroundings.",
 "One test per error with an otherwise perfect call; combinations and positions inside nested schemas are not tried.",
 [L,S,C,F,"src/util.c"],[("parameter validation","src/load.c: cyaml__validate_load_params; src/save.c: cyaml__validate_save_params; src/copy.c: cyaml__validate_copy_params; src/free.c: cyaml_free"),("messages","src/util.c: cyaml_strerror")],None,["return codes and outputs"])
p("C26","Only the first document of a stream counts",
 "Loading a stream of several documents gives the result of loading its first document alone, whatever well-formed documents follow, with nothing leaked; an empty stream succeeds with no data. Explicit document markers, directives, comments, the kind of line breaks and the text encoding (UTF-8 with or without a byte order mark, or UTF-16 with one) do not change the result.",
 ["inputs"],
 "Every sequence of up to three documents over an alphabet of contents, markers, comments and encodings, for valid and invalid first documents.",
 "Two sample streams are tested.",
 [L],[("stream/document states","src/load.c: cyaml__doc_start, cyaml__doc_end, cyaml__stream_end")],None,["result of cyaml_load_data"])
p("C27","Schemas written with the public macros describe the C structures exactly",
 "For every public schema macro, a schema declared with it for a C structure makes load write, and save, copy and free read, exactly the C members named, so values appear in the members with their C types, counts appear in the count members, and untouched members stay zero. This holds for pointer and embedded members, all C integer sizes, strings as arrays and pointers, nested structures, and sequences with conventional or custom count members.",
 ["programs","inputs"],
 "Every public macro x member kind, with boundary values and presence patterns for each member, loaded, saved, copied and freed, compared through the C member accesses of the compiler.",
 "Tests use the macros but compare only a few values each, and several macros (custom count members, fixed sequences of each kind) appear only once.",
 [H,"include/cyaml/private.h"],[("macros","include/cyaml/cyaml.h: CYAML_FIELD, CYAML_FIELD_PTR, CYAML_FIELD_PTR_COUNT, CYAML_VALUE and the typed CYAML_FIELD_* / CYAML_VALUE_* macros; include/cyaml/private.h")],None,["C structure members after cyaml_load_data"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,sch)
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    import re
    n=len(re.findall(r'[.;](?=\s|$)',x['statement']))
    ns=len(re.findall(r'\.(?=\s|$)',x['statement']))
    if ns>3: print(x['id'],ns)
print(len(P))
