# ---------------------------------------------------------------- wide: osi
prop("C01", "JSON tokenizer accepts exactly the RFC 8259 token language",
     "For every sequence of characters, however it is split into calls, the strict JSON tokenizer reports exactly the tokens that RFC 8259 defines for it, and reports an error for every character run that is not part of a valid token. The two documented leniency flags extend that language only by leading zeroes and plus signs of numbers, respectively.",
     ["inputs", "histories", "configurations"], "all character sequences, all splits into push calls, all four flag combinations",
     "Inputs are unbounded sequences over 1.1M characters times 20 tokenizer states times four flag sets; the tests push a few dozen literals.",
     [OSI + "json/token.rs"], [("token state machine", OSI + "json/token.rs: Tokenizer::push, advance and the per-state helpers")],
     observe_at=[{"name": "reported tokens and errors", "where": "Report trait calls"}])
prop("C02", "JSON tokens carry exactly the characters they were built from",
     "A reported JSON token or error carries the text of exactly the input characters it stands for: the raw text equals the consumed input, decoded strings contain one character per source character or escape sequence with the escape resolved (surrogate pairs combined, invalid escapes reported as errors), and the parts of a number are its digits with its signs. No character is dropped, duplicated, or attributed to a neighbouring token.",
     ["inputs", "histories"], "all character sequences and splits",
     "The tests compare a handful of literals; which accumulator a character goes to depends on the state, the character class and the flags together.",
     [OSI + "json/token.rs"], [("accumulators and report functions", OSI + "json/token.rs: acc, acc_str, acc_num and report_*")])
prop("C03", "JSON tokenizer starts afresh after every token, end of input or stop",
     "Once a token is complete, the input has ended, the tokenizer was reset, or the consumer's report callback asked to stop, nothing of the earlier input is left, so that whatever is tokenized next yields the same result as on a new tokenizer with the same flags. A stop request is handed to the caller unchanged, and no further report is issued for that call.",
     ["inputs", "histories", "fault_sequences"], "all inputs, all points at which the callback stops, all later inputs",
     "Needs every state in which a callback can stop, followed by another use of the same tokenizer; tests never stop and reuse.",
     [OSI + "json/token.rs"], [("prepare on completion and on break", OSI + "json/token.rs: prepare, push, parse_str")])
prop("C04", "Option parsing classifies every argument as documented",
     "Every command-line argument is reported exactly as the documented rules say, given the schema and what preceded it: `--` ends flag and command parsing, `--name[=value]` selects the matching flag or its `no-` toggle according to the flag's mode, a first word selects a sub-command or otherwise becomes a parameter, and everything unrecognised yields the documented error. No argument is skipped or reported twice.",
     ["inputs", "histories", "configurations"], "all argument vectors, all schemas, all flag modes, valid and invalid UTF-8",
     "Arguments, schemas and their order are unbounded; the tests parse a few fixed vectors against one schema.",
     [OSI + "args/parse.rs"], [("argument dispatch", OSI + "args/parse.rs: Parser/Cursor parse functions")])
prop("C05", "A stop from a report callback ends the operation and reaches the caller",
     "Whenever a user-supplied report or visitor callback asks to stop, the library operation that called it makes no further callback and returns that very stop value to its caller. This holds for option parsing, help output, and JSON tokenizing alike.",
     ["inputs", "fault_sequences"], "every callback call site, each possible stop point",
     "Each call site is a separate fault-injection point; the tests always continue.",
     [OSI + "args/parse.rs", OSI + "args/help.rs", OSI + "args/report.rs", OSI + "json/token.rs"],
     [("ControlFlow propagation", "every call that returns ControlFlow")])
prop("C06", "Typed option sinks store the given value or report an error, never both",
     "A typed option or parameter sink either stores exactly the value it was given (the raw bytes, the text, the toggle state, or one more list entry) and continues, or leaves the stored value untouched and reports an error. Text sinks accept precisely valid UTF-8, and a sink rejects every kind of report it does not support.",
     ["inputs", "histories"], "all sink types times all report kinds times all values, including invalid UTF-8",
     "The sink types times report kinds form a matrix that the tests sample; invalid UTF-8 and toggles are mostly untried.",
     [OSI + "args/report.rs"], [("FlagReport/CommandReport implementations", OSI + "args/report.rs")])
prop("C07", "Flag and command lookup finds exactly the declared entries",
     "For every schema, looking up a flag name or command path finds the entry declared with exactly that name or path, if any, independent of the order of declaration, and a command's parent is its longest declared proper prefix. Lookups never yield an entry with a different name.",
     ["inputs", "configurations"], "all schemas, all lookup keys",
     "Schemas are unbounded sets; lookups depend on sort order and search key agreeing, which fixed schemas cannot show.",
     [OSI + "args/layout.rs"], [("compile, sort and binary search", OSI + "args/layout.rs")])
prop("C08", "SHA-256 computes the FIPS 180-4 digest for every message and split",
     "The SHA-256 engine produces the FIPS 180-4 digest of the concatenation of everything fed to it, for every message length and every way of splitting the message into calls, including zero-fill calls. It never panics for messages below 2^61 bytes, and reading the digest leaves the engine reset for a new message.",
     ["inputs", "histories"], "all messages, all splits",
     "Message space is unbounded; padding depends on length modulo 64 and on the split, and the tests use a few short vectors.",
     [OSI + "hash/sha256.rs", OSI + "hash.rs"], [("block function, buffering and padding", OSI + "hash/sha256.rs")])
prop("C09", "HMAC equals RFC 2104 for every key, message and hash engine",
     "The HMAC engine produces H((K^opad) || H((K^ipad) || message)) with the key hashed first exactly if it exceeds the block length, for every key length, message and split into calls. After the tag has been produced or the engine was reset, it computes the tag of the next message under the same key.",
     ["inputs", "histories"], "all keys, messages, splits and reuse sequences",
     "Key and message lengths are unbounded and reuse sequences are histories; tests check fixed vectors.",
     [OSI + "hmac.rs"], [("key preparation, inner and outer pass", OSI + "hmac.rs")])
prop("C10", "Pseudo-random generators follow their published reference algorithms",
     "The mixing function, SplitMix64 and xoshiro256++ generators return, for every seed and every number of steps, the sequence of their published reference implementations, including jumps. Splitting derives an odd increment, and seeding a generator from another consumes one fresh value per state word.",
     ["inputs", "histories"], "all seeds, all step counts",
     "2^64 to 2^256 seeds; the tests compare prefixes for a few seeds.",
     [OSI + "rng.rs"], [("step, output, jump and seeding functions", OSI + "rng.rs")])
prop("C11", "Endian-annotated numbers keep the declared byte order on every target",
     "A big-endian or little-endian number stores its native value in exactly the declared byte order on every target, converting a value in and back out yields the same value for every supported primitive type, and converting raw storage never alters it. Native-ordered types are stored unchanged.",
     ["inputs", "configurations"], "all values, all 24 primitive types and their wrappers, big- and little-endian targets",
     "Tests run on one little-endian host with a few values; the other byte order is never exercised.",
     [OSI + "ffi/endian.rs", OSI + "ffi/integer.rs", OSI + "ffi/pointer.rs"], [("NEEDS_SWAP and the conversion functions", OSI + "ffi/endian.rs")])
prop("C12", "Byte-level memory helpers move exactly the right bytes",
     "Byte-swapping a value reverses all of its bytes for every size, reinterpreting a copy preserves the leading bytes for all size and alignment combinations without an access that the source's alignment does not permit, and byte views cover exactly the object. No helper reads or writes outside of the objects it was given.",
     ["inputs", "programs"], "all values and all types used as parameter",
     "Misaligned or oversized accesses are silent on the test host; type parameters are unbounded.",
     [OSI + "mem.rs"], [("bswap_copy, transmute_copy_uninit, as_bytes", OSI + "mem.rs")])
prop("C13", "Tagged non-null pointers keep pointer and tag bits independent",
     "A tagged pointer returns exactly the pointer it was created from and exactly the tag bits last set, for every aligned address and every tag value; changing one never affects the other. Creating a tagged pointer from a misaligned address is refused.",
     ["inputs", "histories"], "all addresses, all tag values, all sequences of updates",
     "Addresses and tags are only sampled by tests; mixing up masks shows only for particular bit patterns.",
     [OSI + "ptr.rs"], [("MASK_META and accessors", OSI + "ptr.rs: NonNull4")])
prop("C14", "Smart-pointer conversions conserve ownership and address",
     "Converting a reference, box or shared pointer into its raw form and back yields a pointer of the same kind to the same object, and neither direction drops, duplicates or leaks a reference. The pinned variants behave the same.",
     ["histories", "programs"], "all supported pointer types and all pointees, sized or not",
     "A double release or leak does not change any value the tests compare.",
     [OSI + "convert.rs", OSI + "pin.rs", OSI + "ptr.rs"], [("into_deref/from_deref pairs", OSI + "convert.rs")])
prop("C15", "Packed and ABI wrappers preserve value, size and ownership",
     "Storing a value in a packed, integer or pointer ABI wrapper and reading it back yields the same value for every type and alignment, moving a value out of a wrapper drops it exactly once in total, and no wrapper ever creates a reference to possibly unaligned memory.",
     ["inputs", "programs"], "all wrapped types, alignments and values",
     "Unaligned references and double drops are silent on the host; types are unbounded.",
     [OSI + "ffi/packed.rs", OSI + "ffi/integer.rs", OSI + "ffi/pointer.rs"], [("new/into_inner/get/set/replace", OSI + "ffi/packed.rs")])
prop("C16", "Equality, ordering and hashing agree on every value type",
     "For every public value type with hand-written comparisons, equality, ordering and hashing look at the same logical value: equal values compare as equal and hash alike, partial and total order agree, and the numeric wrappers compare by native value rather than by stored bytes. Identity wrappers compare and hash by address only, and borrowed-or-owned values compare alike regardless of who owns them.",
     ["inputs", "programs"], "all pairs of values of all such types",
     "Pairs of values are unbounded; a mismatch between hash and equality breaks only particular map lookups.",
     [OSI + "cmp.rs", OSI + "mown.rs", OSI + "ffi/endian.rs", OSI + "ffi/integer.rs", OSI + "ffi/pointer.rs", OSI + "ffi/packed.rs", OSI + "align.rs", OSI + "ptr.rs", TMP + "fmt/dbus/signature.rs"],
     [("manual Eq/Ord/PartialOrd/Hash impls", "see files")])
prop("C17", "Brands are unique and cannot be forged, copied or mixed up",
     "No safe program can obtain two unique brand tokens with the same brand, duplicate a unique token, create one outside of the scoped constructor, let it escape that scope, or use an identifier of one brand where another brand is expected.",
     ["programs"], "all safe programs",
     "A statement about which programs are rejected by the compiler; runtime tests only contain accepted programs.",
     [OSI + "brand.rs", OSI + "marker.rs"], [("invariant lifetime and higher-ranked closure", OSI + "brand.rs: unique")])
prop("C18", "Raw-pointer wrappers respect thread-safety, lifetimes and variance",
     "The raw-pointer wrappers can be sent to or shared with another thread only if the pointee permits it, cannot outlive the borrow they were created from, and keep their pointee type invariant; the single-owner wrapper cannot be duplicated. Programs violating this do not compile.",
     ["programs"], "all safe programs",
     "A statement about rejected programs; tests contain only accepted ones.",
     [OSI + "ptr.rs", OSI + "marker.rs", OSI + "mown.rs", OSI + "test.rs"], [("auto-trait impls and phantom markers", OSI + "ptr.rs")])
prop("C19", "Operations with caller obligations cannot be called from safe code",
     "Every public operation whose soundness depends on a promise by the caller (dereferencing wrapped raw pointers, assuming initialisation, unchecked encodings, committing written bytes, unpinning, extending lifetimes) is rejected outside of an unsafe context, and no safe public operation dereferences a raw pointer or bypasses validation on behalf of the caller.",
     ["programs"], "all safe programs, all public operations",
     "Dropping the keyword keeps every existing program compiling and every test passing.",
     [OSI + "ptr.rs", OSI + "mem.rs", OSI + "pin.rs", OSI + "compat.rs", OSI + "convert.rs", OSI + "marker.rs", OSI + "meta.rs", OSI + "align.rs", TMP + "io/map.rs", TMP + "io/stream.rs"],
     [("unsafe fn and unsafe trait declarations", "see files")])
prop("C20", "Field and container pointers are exact inverses",
     "Deriving a field pointer from a container and the container pointer from that field yields the original address for every declared field offset, and a declared field type that does not match the actual field is rejected at compile time.",
     ["inputs", "programs"], "all addresses, offsets and types",
     "The test checks one offset of one struct; sign or unit errors can hide at particular offsets.",
     [OSI + "meta.rs", OSI + "mem.rs"], [("field_of_ptr/container_of_ptr", OSI + "meta.rs"), ("typed_offset_of", OSI + "mem.rs")])
prop("C21", "Symbol conversion always yields a valid identifier",
     "Turning arbitrary text into a symbol always yields a non-empty string of alphanumeric characters and underscores that does not start with a number. Text that already is such an identifier is unchanged; otherwise every other character is replaced by one underscore, and one is put in front of a text that is empty or starts with a number.",
     ["inputs"], "all strings", "Strings are unbounded; tests try a few.",
     [OSI + "str.rs"], [("symbolize", OSI + "str.rs")])
prop("C22", "Natural string comparison is a total order",
     "Comparing strings naturally is a total order consistent with equality for all strings: it is antisymmetric, transitive, and reports two strings as equal only if they are identical. Runs of digits compare by numeric value, however long they are.",
     ["inputs"], "all triples of strings",
     "Transitivity quantifies over triples; tests compare pairs of short strings.",
     [OSI + "str.rs"], [("cmp_natural", OSI + "str.rs")])
prop("C23", "Text is only ever handed out after UTF-8 validation",
     "Converting operating-system strings or decoded bytes into text succeeds exactly if the bytes are valid UTF-8, and yields those bytes unchanged. No conversion in safe code yields text that was not validated or derived from valid text.",
     ["inputs"], "all byte strings", "Byte strings are unbounded; invalid text from an unchecked conversion is undefined behaviour that no assertion sees.",
     [OSI + "compat.rs", OSI + "json/token.rs", OSI + "args/report.rs", TMP + "fmt/dbus/dvar.rs", TMP + "fmt/json/token.rs"],
     [("from_utf8 and unchecked conversions", "see files")])
prop("C24", "Alignment markers have exactly the advertised alignment",
     "On every target, each alignment marker is zero-sized and has exactly the alignment it advertises, and the alignment declared for a type equals the type's real alignment. Embedding a marker raises a structure's alignment to at least that value and does not otherwise change its size.",
     ["configurations", "programs"], "all targets, all markers and annotated types",
     "Tests run on one 64-bit target; a wrong entry for another width compiles and passes.",
     [OSI + "align.rs"], [("Align1..Align128, Aligned impls", OSI + "align.rs")])
prop("C25", "Conditional-compilation cascade selects exactly one branch",
     "For every combination of configuration predicates, the cascading conditional expands exactly the block of the first predicate that holds, or the final block if there is one and none holds, and nothing else.",
     ["configurations"], "all truth assignments, any number of branches with and without a final block",
     "Each truth assignment is a separate compilation; tests compile one.",
     [OSI + "cfg.rs"], [("cond macro", OSI + "cfg.rs")])
prop("C26", "Foreign ABI types have the foreign platform's size, alignment and order",
     "The integer, float, address and pointer types of each named platform ABI have that platform's size, alignment, signedness and byte order on every compilation target, and the alias for the compilation target agrees with the native primitive types. Optional non-zero addresses and pointers take no extra space.",
     ["configurations"], "all compilation targets times all ABI modules times all types",
     "Each compilation target is a separate build; tests run on x86-64 only.",
     [OSI + "ffi/abi.rs", OSI + "ffi/integer.rs", OSI + "ffi/pointer.rs", OSI + "ffi/endian.rs"], [("ABI type aliases", OSI + "ffi/abi.rs")])
# ---------------------------------------------------------------- sys
prop("C27", "ELF structures have the standard byte layout on every target",
     "Every ELF structure, in its 32-bit and 64-bit form, has the size, alignment, field order, offsets and widths of the ELF specification on every compilation target, and the native alias is the form matching the target's pointer width.",
     ["configurations"], "all structures, all fields, all compilation targets",
     "Tests check total sizes on one target; field order, offsets and other targets are not covered.",
     [SYS + "ffi/elf.rs"], [("repr(C) structures", SYS + "ffi/elf.rs")])
prop("C28", "ELF constants carry the values assigned by the ELF standards",
     "Every ELF constant (identification bytes, types, machines, section, segment, symbol, dynamic and relocation codes) has the numeric value that the ELF specification or its registry assigns to it, and distinct names share a value only where the registry says so.",
     ["inputs"], "all constants", "The value of a constant is only observable by reading foreign files; no test compares them with the standard.",
     [SYS + "ffi/elf.rs"], [("constants", SYS + "ffi/elf.rs")])
prop("C29", "Linux error numbers match the kernel ABI in every platform module",
     "Every Linux error number has the value of the kernel's generic error table, in every platform module and on every compilation target, all platform modules expose the same set of names, and the variant based on the C library names the same errors.",
     ["configurations"], "all error names, all platform modules, all feature sets and targets",
     "Tests compare only the host's module against the host's C library for some names.",
     [SYS + "ffi/linux/common/errno.rs", SYS + "ffi/linux/libc/errno.rs", SYS + "ffi/linux/mod.rs"], [("errno tables", SYS + "ffi/linux/common/errno.rs")])
prop("C30", "Every feature set compiles on every target and features only add API",
     "Each crate type-checks with every combination of its features on little- and big-endian, 32- and 64-bit targets without the standard library unless asked for it, and enabling a feature never removes or changes a public item's path.",
     ["configurations"], "all feature subsets times a set of targets",
     "Tests build two feature sets for one target.",
     ["Cargo.toml", OSI + "lib.rs", SYS + "lib.rs", TMP + "lib.rs"], [("cfg attributes", "all crates")])
# ---------------------------------------------------------------- tmp
prop("C31", "DOS and PE/COFF headers have their on-disk layout on every target",
     "The DOS MZ and PE/COFF header structures have the exact size, field offsets, field widths and little-endian order of their file formats on every compilation target, and reinterpreting them as bytes and back preserves every byte.",
     ["configurations", "inputs"], "all structures, fields and targets; all byte contents",
     "Tests check sizes on one little-endian target.",
     [TMP + "msdosmz.rs", TMP + "pecoff.rs"], [("repr(C) structures", "see files")])
prop("C32", "DOS and PE/COFF constants carry the values of the format specification",
     "Every PE/COFF constant (magic numbers, machine types, characteristics, subsystems, directory indices, section flags) and DOS constant has the value assigned by the format specification.",
     ["inputs"], "all constants", "A wrong constant is only visible against foreign files; no test compares them with the specification.",
     [TMP + "pecoff.rs", TMP + "msdosmz.rs"], [("constants", TMP + "pecoff.rs")])
prop("C33", "16-bit file checksum sums every byte exactly once",
     "The 16-bit sum of a byte string is the wrapping sum of its little-endian 16-bit words with an odd last byte zero-extended, for every length, and the bundled DOS stub program is a self-consistent DOS executable whose header describes its own size and whose checksum is valid.",
     ["inputs"], "all byte strings", "Byte strings are unbounded; tests sum a few.",
     [TMP + "msdosmz.rs"], [("sum16, STUB_X86", TMP + "msdosmz.rs")])
prop("C34", "D-Bus type elements map one-to-one to codes with the specified traits",
     "Element codes and elements map one-to-one to each other, every other byte is rejected, opening and closing elements pair up mutually, and each element's alignment, fixed size and classification equal those of the D-Bus specification for both encodings. Deriving the attributes of a container type from those of its parts never changes an unrelated attribute.",
     ["inputs"], "all 256 codes, all 20 elements, all attributes",
     "A table of 20 rows with eight attributes, sampled by tests.",
     [TMP + "fmt/dbus/element.rs"], [("ELEMENTS table and FlagSet", TMP + "fmt/dbus/element.rs")])
prop("C35", "D-Bus signature parsing accepts exactly single complete types",
     "Parsing a D-Bus signature succeeds exactly if the text is one single complete type (known codes, properly paired containers, dictionaries being pairs with a basic key) and otherwise reports an error that names the offending position; it never panics, never reads past the text, and leaves no part of the result uninitialised. The parsed form converts back to the same text, for short and long signatures alike.",
     ["inputs", "configurations"], "all byte strings, both internal representations",
     "Signatures nest arbitrarily; two differently sized representations exist and tests mostly reach the small one.",
     [TMP + "fmt/dbus/signature.rs"], [("parse", TMP + "fmt/dbus/signature.rs")])
prop("C36", "Signature cursors never leave the signature",
     "Whatever sequence of moves is applied, a signature cursor stays within the signature or at its end, never panics, reports the element at its position, and its remaining-length hint is exact. Stepping into, over and out of containers visits each element exactly once.",
     ["histories", "inputs"], "all signatures, all move sequences",
     "Move sequences are unbounded histories.",
     [TMP + "fmt/dbus/signature.rs"], [("Cursor", TMP + "fmt/dbus/signature.rs")])
prop("C37", "D-Bus encoding follows the signature and the wire format exactly",
     "Each encode operation succeeds only if the signature expects that type next, and then emits exactly the bytes of the D-Bus wire format: zero padding up to the type's natural alignment, the value in the selected byte order, length prefixes and terminators for strings and signatures, and array lengths that exclude the leading padding. Decoding uses the same alignment, width, order and framing for every type.",
     ["inputs", "histories", "configurations"], "all signatures, operation sequences, values, both byte orders",
     "Operation sequences and nesting are unbounded; tests encode a few messages.",
     [TMP + "fmt/dbus/dvar.rs"], [("Enc, Dec", TMP + "fmt/dbus/dvar.rs")])
prop("C38", "A failed encode or decode step leaves the coder unchanged",
     "If an encode or decode operation fails because of the type, a length limit, invalid text or an I/O failure, the position in the signature and in the data are exactly as before, so that the operation can be retried or another one attempted. Bytes are published to the output only once, when the whole signature has been encoded.",
     ["fault_sequences", "histories"], "all operations times all failure points",
     "Every fallible call is a separate fault-injection point; tests only follow the success path.",
     [TMP + "fmt/dbus/dvar.rs"], [("level/cursor update after the last fallible step", TMP + "fmt/dbus/dvar.rs")])
prop("C39", "Decoding untrusted data never panics, over-reads or over-allocates",
     "Decoding arbitrary bytes never panics, never reads outside of the input, and never allocates memory for a length taken from the input before that much input is known to exist. Asking for more array elements answers yes exactly as long as the position is before the end announced by the array's length.",
     ["inputs"], "all byte strings, all signatures",
     "Hostile inputs are unbounded.",
     [TMP + "fmt/dbus/dvar.rs", TMP + "io/map.rs"], [("Dec", TMP + "fmt/dbus/dvar.rs")])
prop("C40", "Mapped I/O stays within its bounds and places bytes exactly",
     "Mapped reads return exactly the requested range or an error if it is out of range, for every offset and length including overflowing ones. Mapped writes place bytes exactly at the requested position relative to the end of already committed data, never expose uninitialised memory or alter committed bytes, and helpers that write several bytes place them consecutively from the given position.",
     ["inputs", "histories"], "all offsets, lengths, buffers and call sequences, all implementations of the mapping trait",
     "Offsets and interleavings with existing buffer content are unbounded; tests start with empty buffers.",
     [TMP + "io/map.rs"], [("Read/Write and their impls", TMP + "io/map.rs")])
prop("C41", "Streaming I/O honours its length contract and never loses data",
     "A successful streaming map yields at least the requested minimum, and otherwise the caller is told how much is missing; the maximum is only a hint and never causes failure. Advancing or committing moves by exactly the given number of bytes, and scanning continues where it stopped without skipping or repeating a byte.",
     ["inputs", "histories"], "all buffers, minimum/maximum combinations and call sequences",
     "Lengths and interleavings are unbounded; tests use small in-range values.",
     [TMP + "io/stream.rs"], [("Read/Write, read_map_while and impls", TMP + "io/stream.rs")])
prop("C42", "JSON stream decoder accepts exactly the JSON nesting grammar",
     "For every token sequence, the JSON stream decoder yields the structural items of a JSON value, and reports an error exactly at tokens that the JSON grammar does not allow at that place. Opening and closing of arrays and objects always balance.",
     ["inputs", "histories"], "all token sequences, all nesting depths",
     "Nesting is unbounded and the table has 130 state/token pairs; there is no test.",
     [TMP + "fmt/json/stream.rs"], [("state/token table", TMP + "fmt/json/stream.rs: advance")])
prop("C43", "Buffered JSON tokenizer yields RFC 8259 tokens regardless of buffering",
     "The buffered JSON tokenizer yields the tokens of RFC 8259 for every byte sequence and every buffering of it, with an error token for everything else, and never panics or reads past the buffered data. Running out of data is reported as such and resuming continues with the same token.",
     ["inputs", "schedules"], "all byte sequences, all buffer fill levels",
     "Where the buffer ends is a schedule; tests mostly provide complete buffers.",
     [TMP + "fmt/json/token.rs"], [("DecInner/Dec", TMP + "fmt/json/token.rs")])
prop("C44", "Help output lists exactly the selected command's flags and sub-commands",
     "If help was requested, the output consists of the information text, the usage of the command the help flag was used on, every flag declared on that command and every direct sub-command of it, each exactly once with its mode and text, and the given widths are the longest name of their section in characters. Nothing is written if help was not requested.",
     ["inputs", "histories"], "all schemas, all positions of the help flag on the command line",
     "Schemas and argument vectors are unbounded; tests render one small schema.",
     ["lib/osi/src/args/help.rs"], [("Help::write", "lib/osi/src/args/help.rs"), ("Flag as FlagReport", "lib/osi/src/args/help.rs")])
prop("C45", "Executable headers are imported from and exported to bytes verbatim",
     "Importing a DOS executable header, header extension or relocation entry from its on-disk bytes keeps every byte at its position, for every content, also if it is no valid header and on machines of either byte order. Viewing it as bytes covers exactly the structure, and both in sequence give the original bytes.",
     ["inputs", "configurations"], "all byte contents of the headers, all targets",
     "Contents are unbounded; tests import the bundled stub on a little-endian host.",
     [TMP + "msdosmz.rs"], [("from_bytes/as_bytes", TMP + "msdosmz.rs")])
prop("C46", "Type-erased errors keep their value and its destructor",
     "An error folded into the type-erased container is kept unchanged as the kind of error it was folded as, whether it is borrowed, boxed by the caller or boxed by the container. No destructor runs before the container is dropped, and dropping it runs the destructor of an owned error exactly once and releases its memory.",
     ["programs", "inputs"], "all ways of construction, all values",
     "Leaks and double drops are silent in tests without instrumented values.",
     ["lib/osi/src/error.rs"], [("Uncaught", "lib/osi/src/error.rs")])
prop("C47", "Bridges to the standard library keep every byte and every failure",
     "Converting between the library's and the standard library's operating-system strings keeps all bytes in place. Text written through the adapter for standard writers reaches the writer completely and in order, however little it accepts at a time, and the adapter fails exactly if the writer fails. A type-erased error has the source of the standard error it was made of, and none otherwise.",
     ["inputs", "schedules", "fault_sequences"], "all strings, all sequences of short, interrupted and failing writes",
     "Short and interrupted writes are schedules of the environment; tests have none.",
     ["lib/osi/src/compat.rs", "lib/osi/src/error.rs"], [("Write, OsStr", "lib/osi/src/compat.rs"), ("Uncaught::source", "lib/osi/src/error.rs")])
