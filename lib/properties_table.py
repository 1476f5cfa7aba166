"""The properties: the source of properties.jsonl and MANIFEST.json (tools/gen.py)."""
CPP = "contract-based deductive verification of the real C++ (clang IR of the headers, transcribed mechanically, obligations discharged by CBMC)"
RUST = "contract-based deductive verification of the real Rust (Kani harnesses stating contracts, obligations discharged by CBMC)"
GEN = "contract-based deductive verification of the generated code (contracts on the C++ API of a crate; the generator built from /repo, its C++ and Rust output and the crate compiled to LLVM IR, transcribed mechanically, obligations discharged by CBMC); compile-time contracts decided by clang"


def P(id, title, statement, over, for_all, why, files, mechanism, observe, technique, note):
    return dict(id=id, title=title, statement=statement, over=over, for_all=for_all, why=why,
                anchors=dict(files=files, mechanism=mechanism, observe=observe), technique=technique, note=note)


PROPS = [
    P("C01", "Values bridged between Rust and C++ arrive unchanged",
      "A value that is encoded for the other language and decoded there is the same value: every component keeps its bits, its place and its ownership, for every composition of scalars, owned and borrowed values, optionals, pairs, results, strings and slices. Encoding writes exactly the bytes that the two languages agree on, so that each side can read what the other wrote, and never touches memory outside the buffer. What is encoded is consumed: afterwards exactly one side owns it.",
      ["inputs"], "for all values of the bridgeable types, all nestings of the bridge schemas that are instantiated, all buffer contents",
      "The unit tests encode a few sample values on one side only; the agreement between the two languages and the ownership hand-over have to hold for every value, and no test in this tree runs both sides.",
      ["support/bridge.h", "support/crubit_bridge_rust/src/lib.rs"],
      [("schemas of the two languages", "support/bridge.h *Abi, support/crubit_bridge_rust/src/lib.rs CrubitAbi impls"), ("buffers", "Encoder/Decoder in both")],
      ["round trips", "byte layout of the buffer"], CPP + "; " + RUST,
      "Proof for all values of representative instances of every schema in both languages, against one explicit byte layout. Trusted: clang, rustc, the IR transcription, Kani, CBMC."),
    P("C02", "Text crosses into Rust only if it is valid UTF-8",
      "Validation accepts a sequence of bytes if and only if it is well-formed UTF-8 as the Unicode standard defines it. It reads no byte outside the sequence. A checked conversion yields a string view of exactly the given bytes when they are valid and reports failure otherwise.",
      ["inputs"], "for all byte sequences of every length",
      "Tests sample byte strings; the invariant of Rust's strings must hold for all of them, at every length and alignment of multi-byte sequences, and a single accepted bad sequence is undefined behaviour in Rust. No test of this code runs in this tree.",
      ["support/rs_std/internal/is_utf8.h", "support/rs_std/str_ref.h"],
      [("validator", "support/rs_std/internal/is_utf8.h IsUtf8"), ("checked construction", "support/rs_std/str_ref.h StrRef::FromUtf8")],
      ["result of validation"], CPP,
      "Unbounded proof by inductive loop invariants (any length up to 2^46) for soundness and memory safety, against an executable copy of the Unicode table 3-7; exactness additionally checked exhaustively at bounded lengths. Trusted: clang, the IR transcription, CBMC."),
    P("C03", "Characters hold exactly the Unicode scalar values",
      "A checked conversion from an integer or a C++ character yields a Rust character if and only if the number is a Unicode scalar value, and then one with that number. Conversions back, comparison and encoding into UTF-8 agree with the scalar value. Literals that are no scalar values are rejected by the compiler.",
      ["inputs"], "for all 32-bit numbers and all pairs of characters",
      "Tests sample a few code points around the boundaries; every value of the type must be valid in Rust, and these tests do not run in this tree.",
      ["support/rs_std/char.h", "support/rs_std/char.cc"],
      [("range check", "support/rs_std/char.h char_::from_u32"), ("encoding", "support/rs_std/char.h")],
      ["constructors", "conversions"], CPP, "Proof for all inputs. Trusted: clang and its constant evaluator, the IR transcription, CBMC."),
    P("C04", "Slices and string views denote exactly the elements they were made from",
      "A slice or string view made from a container, array, pointer and length or literal denotes exactly those elements, is never null for Rust even when it is empty, and converts back to the same range. Equality and ordering are those of the elements, never depend on where they live, and never read outside the two ranges. Conversions that would lose constness or validity do not compile.",
      ["inputs"], "for all lengths, addresses and contents, over representative element types",
      "The tests compare a handful of short literals, and do not run in this tree; a view with a null pointer or a wrong length is undefined behaviour in Rust only for particular inputs such as empty ranges.",
      ["support/rs_std/slice_ref.h", "support/rs_std/str_ref.h"],
      [("representation", "support/rs_std/slice_ref.h SliceRef"), ("comparison", "support/rs_std/slice_ref.h EqualImpl, str_ref.h operator<=>")],
      ["data()", "size()", "comparison operators"], CPP,
      "Proof for all ranges; comparison over unbounded lengths by the contract of memcmp; equality element by element of other types bounded at 4. Trusted: clang, the IR transcription, CBMC, memcmp."),
    P("C05", "Calls that would alias a mutable argument are stopped, all others are not",
      "A call of a Rust function from C++ is stopped if and only if some mutable argument shares a byte with another argument. Empty arguments never conflict, arguments that only touch do not conflict, and shared arguments may overlap freely. The answer does not depend on the order of the arguments.",
      ["inputs"], "for all addresses, sizes, and numbers of mutable and shared arguments",
      "The tests try a dozen layouts of small stack arrays; the check sorts and merges intervals, and its errors show only for particular relative positions and counts of arguments.",
      ["support/internal/check_no_mutable_aliasing.h", "support/internal/check_no_mutable_aliasing.cc"],
      [("pairwise check for few arguments", "check_no_mutable_aliasing.h HasMutableAliasing"), ("sorting check for many", "check_no_mutable_aliasing.cc HasMutableAliasingSpans")],
      ["result of the check", "abort"], CPP,
      "Proof for all addresses and lengths with up to three mutable and three shared arguments and for the ranges of all kinds of arguments; more arguments on a 16x16 grid at two scales (bounded). Trusted: clang, the IR transcription, CBMC, that std::sort sorts."),
    P("C06", "Moving Rust values around in C++ neither loses nor duplicates them",
      "Every value that is put into a return slot, a nullable wrapper or swapped is destroyed, relocated or handed out exactly once, whatever sequence of construction, move, copy, assignment and self-assignment it goes through. A moved-from wrapper reports that it is empty, can be assigned to again, and is not destroyed twice. Storage that was never initialized is never read, assigned to or destroyed.",
      ["inputs", "histories"], "for all values, over states of source and target, over representative payload types (movable, copyable, relocatable, unassignable, immovable)",
      "The tests run single operations on trivially leak-tolerant payloads; double destruction and use of uninitialized storage are invisible without accounting for every object in every combination of states.",
      ["support/internal/slot.h", "support/internal/move_assign.h", "support/movable.h", "support/internal/memswap.h"],
      [("manual lifetime", "support/internal/slot.h Slot"), ("nullable wrapper", "support/movable.h Movable"), ("replacing a value", "support/internal/move_assign.h")],
      ["construction and destruction of the payload"], CPP,
      "Proof for all payload values and states, with payloads that account for every object and resource. One known finding (arrays of immovable elements). Trusted: clang, the IR transcription, CBMC."),
    P("C07", "Machine integers and layout facts agree with Rust",
      "The C++ stand-ins for Rust's pointer-sized integers convert, compare, add and subtract as those integers do, have their size and alignment, and are distinct types. The unit type has one value. Sizes used for layout computations are multiples of the alignment and offsets are those of the members.",
      ["inputs"], "for all pairs of 64-bit numbers; over representative struct shapes",
      "The tests compare one or two small numbers; wrap-around, sign and order have to be right for all.",
      ["support/rs_std/int.h", "support/rs_std/unit.h", "support/internal/sizeof.h", "support/internal/offsetof.h"],
      [("integers", "support/rs_std/int.h"), ("layout macros", "support/internal/sizeof.h, support/internal/offsetof.h")],
      ["operators", "constants"], CPP, "Proof for all numbers; layout macros by compile-time obligations over representative types. Trusted: clang, the IR transcription, CBMC."),
    P("C08", "Options and results hold one state, own it once, and refuse the other side",
      "An option is none or holds one value and a result holds one value or one error, exactly as the last construction or assignment said, whether the tag is stored apart or inside the payload. The old content is destroyed once when it is replaced, content that is converted to or from a standard optional is owned by exactly one side, and nothing is destroyed that is not there. Access to a side that is not there stops the program, every other access denotes the content itself.",
      ["inputs", "histories"], "for all values, from every state, over tag and niche layouts and representative payload types",
      "No test of these bases runs in this tree; ownership errors show only for particular transitions, payload kinds and layouts.",
      ["support/rs_std/option.h", "support/rs_std/result.h", "support/internal/move_assign.h"],
      [("option base", "support/rs_std/option.h OptionBase"), ("result base", "support/rs_std/result.h ResultBase")],
      ["has_value", "accessors", "construction and destruction of the payload"], CPP,
      "Proof for all payload values and every transition from every state, for both layouts that the generator emits. Trusted: clang, the IR transcription, CBMC."),
    P("C09", "Iterating a Rust iterator from C++ yields its items in order, once",
      "Walking an adapted Rust iterator visits exactly the items it produces, in order, each once, and ends exactly when it ends. Looking at the current item does not advance, each advance asks the source for exactly one item, and nothing is asked after the end. Copies walk independently, and owned items are destroyed once whether or not they were moved out.",
      ["inputs", "histories"], "for all item values, positions and lengths of the source",
      "The only test that runs checks that the header compiles.",
      ["support/rs_std/iterator_adapter.h", "support/rs_std/traits.h"],
      [("one item of look-ahead", "support/rs_std/iterator_adapter.h IteratorAdapter::next")],
      ["operator*", "operator++", "comparison with the end"], CPP,
      "Proof of one step from an arbitrary position, whole sequences by induction; ownership of items bounded at 3 items. Trusted: clang, the IR transcription, CBMC."),
    P("C10", "C types with no Rust twin behave as the C types do",
      "The Rust stand-ins for C's character, wide and long long types hold exactly the numbers of the C type and have its size. Every conversion that is offered keeps the number, a checked conversion succeeds if and only if the number fits, and comparison, hashing and arithmetic are those of the underlying number. The null pointer constant is null, an atomic character shares the storage of its character, and a converted pointer points to the same place.",
      ["inputs"], "for all values of every type and all pairs of values",
      "The tests convert a few literals; sign and width errors show only for particular values.",
      ["support/ffi_11/src/lib.rs"],
      [("newtypes", "support/ffi_11/src/lib.rs and its modules"), ("pointer casts", "support/ffi_11 AsFfi11Ptr, CastFfi11, CStrExt")],
      ["From/TryFrom", "operators"], RUST,
      "Proof for all values on the LP64 Linux variant; CStr round trip bounded at 4 bytes. Trusted: rustc, Kani, CBMC."),
    P("C11", "Lossy text output never loses, reorders or invents text",
      "The text that comes out of a lossy formatter is the one that decoding all bytes written so far would give, with one replacement character for each maximal ill-formed part, however the bytes were split over write calls. An incomplete sequence is kept until it is completed, broken or flushed, and a flush leaves nothing behind. A failed write is reported, and a count short of the input is returned only then.",
      ["inputs", "histories"], "for all bytes from every pending state; all splits of a byte string into writes, bounded in length",
      "The tests write one long sample; splitting a multi-byte character over calls in the wrong place, or a truncated sequence followed by another, has to work everywhere.",
      ["support/rs_std/lossy_formatter.rs", "support/rs_std/lossy_formatter_for_bindings.rs", "support/cc_std_impl/lossy_utf8.rs"],
      [("pending bytes", "support/rs_std/lossy_formatter.rs IncompleteUtf8"), ("writer", "support/rs_std/lossy_formatter.rs")],
      ["text written", "returned counts"], RUST,
      "One write_byte step proved for every byte from no and one pending byte, the other steps, slices, fills and failures bounded, against a byte-wise specification machine. Trusted: rustc, Kani, CBMC."),
    P("C12", "Handed-over references keep their address, lifetime and mutability",
      "A C++-style reference made from a Rust reference, pin or pointer denotes that very object, converts back to it, and is never null. A conversion never gains mutability, lifetime, thread-safety or the right to move a pinned object: such code does not compile. Casting to a base class yields the address of that base within the object, and casts between equal types change nothing.",
      ["inputs"], "for all addresses, over representative types of every kind (zero-sized, immovable, unsized); all programs that misuse the types in the listed ways",
      "The tests run sample casts; that misuse is rejected cannot be tested by running code at all.",
      ["support/cref.rs", "support/oops.rs", "support/decltype_cast.rs"],
      [("references", "support/cref.rs"), ("inheritance", "support/oops.rs"), ("equal types", "support/decltype_cast.rs")],
      ["as_ptr and conversions", "compiler verdict"], RUST,
      "Proof of the conversions for all addresses of representative types; type-level contracts decided by rustc. Trusted: rustc, Kani, CBMC."),
    P("C13", "Objects that cannot move are constructed in place, once, and destroyed once",
      "Constructing through a ctor value initializes exactly the given place with exactly the described value, field by field, and runs each destructor exactly once whatever succeeds or fails on the way. A slot, box or shared pointer holds the constructed object at a fixed address until it is replaced or dropped; after a failed construction nothing is left to destroy. A pinned type can be made, moved, projected and borrowed only through this machinery: other code does not compile.",
      ["inputs", "histories"], "for all values, all outcomes of the parts, over every combinator; all programs that misuse the types in the listed ways",
      "The tests construct a few samples; leaks and double drops show only on particular combinations of success and failure, and rejection of misuse cannot be tested by running code.",
      ["support/ctor.rs", "support/ctor_proc_macros.rs"],
      [("combinators", "support/ctor.rs Ctor* types"), ("slot", "support/ctor.rs Slot"), ("macros", "support/ctor_proc_macros.rs recursively_pinned, project_pin_type; support/ctor.rs ctor!, emplace!")],
      ["constructions and destructions", "addresses", "compiler verdict"], RUST,
      "Proof for all payload values and outcomes with payloads that account for every object; type-level contracts decided by rustc. Trusted: rustc, Kani, CBMC."),
    P("C14", "Items are sorted by dependency, as close to source order as possible",
      "Sorting items by their dependencies returns every item exactly once, either in the order or among the failed ones. In the order a predecessor always stands before its successors, and an item waits only for its predecessors and for items that are preferred to it, with ties broken by input order whatever the hash tables do. Exactly the items of cycles and those that depend on one fail, and they come in the preferred order.",
      ["inputs"], "for all graphs and preferences; explored: graphs of three and four nodes of every shape, with ties, under two iteration orders of the hash tables",
      "The unit tests sort a handful of graphs with one preference; hash iteration order must never show, and bad orders appear only for particular shapes.",
      ["cc_bindings_from_rs/toposort.rs"],
      [("Kahn's algorithm with a priority queue", "cc_bindings_from_rs/toposort.rs toposort")],
      ["TopoSortResult"], RUST + ", bounded",
      "Bounded stand-in (labelled so): no installed verifier takes this function's closures and containers with unbounded loops. The contract is a complete specification of the result. Trusted: rustc, Kani, CBMC, the containers put in the place of std's."),
    P("C15", "Memoized queries are computed once and their cycles are reported",
      "A memoized query returns what its function returns for those arguments and that database, computes it at most once per database, and never shows the values of another database. A query that needs itself, directly or through others, is answered by the cycle handler or stops the program, and nothing that was computed under an unfinished cycle is kept as if it were final. After that, or after a panic, later queries are answered as if nothing had happened.",
      ["inputs", "histories"], "for all keys and values; over the shapes of query graphs (self cycle, mutual cycle, chain, diamond, sibling) that are instantiated, and any number of databases up to the given one",
      "Unit tests ask fixed queries of one database; which values are stale or belong to somebody else shows only after particular sequences of queries, cycles and databases.",
      ["common/memoized.rs"],
      [("memo table", "common/memoized.rs query_group!, internal::MemoizationTable"), ("active set", "common/memoized.rs internal")],
      ["values returned", "number of computations"], RUST,
      "Contracts for all keys and values over given query graphs; number of distinct keys bounded by the table of the verifier. Trusted: rustc, Kani, CBMC, the tables put in the place of std's."),
    P("C16", "Interned values are equal exactly if their contents are",
      "Two values interned in one arena have the same contents if and only if they compare equal, and ordering and hashing agree with that equality. An interned value denotes the contents it was made from as long as the arena lives, whatever is interned later. Interned strings, slices and values differ from every value of other contents even when they are empty.",
      ["inputs", "histories"], "for all contents; over sequences of up to three interned values",
      "Unit tests intern a few strings; addresses of empty and adjacent values coincide only under particular allocation histories.",
      ["common/interner.rs"],
      [("arena and table", "common/interner.rs")],
      ["equality", "contents"], RUST,
      "Contracts for all contents of the given lengths; number of interned values bounded. Trusted: rustc, Kani, CBMC, the arena and tables put in the place of bumpalo's and std's."),
    P("C17", "C++'s smart pointers and allocator keep their ownership in Rust",
      "A unique_ptr, virtual_unique_ptr or shared_ptr of cc_std destroys its object and frees its memory exactly once, when its last owner goes, whether that owner is Rust or C++, and never when it was released or is null. A shared object reaches C++ with the deleter and the control block it was made with, projections keep the whole object alive, and memory is freed with the size and alignment it was allocated with. What safe code can do with a pointer (threads, lifetimes, pinning) does not exceed what its object allows.",
      ["inputs", "histories"], "for all objects; over histories of owners and watchers",
      "The repository's suite compiles none of these files here, and a count, a deleter or a size that is wrong shows only as a leak or a double free in one particular order of owners.",
      ["support/cc_std_impl/unique_ptr.rs", "support/cc_std_impl/shared_ptr.rs", "support/cc_std_impl/optional.rs", "support/cc_std_impl/cpp_std_allocator.rs", "support/cc_std_impl/std_allocator.h"],
      [("smart pointers", "support/cc_std_impl/unique_ptr.rs, shared_ptr.rs"), ("control block deleter", "support/cc_std_impl/cpp_std_allocator.rs __crubit_invoke_dyn_control_block_deleter"), ("allocator", "support/cc_std_impl/cpp_std_allocator.rs StdAllocator")],
      ["destructions", "allocations", "owner counts", "pointers"], RUST,
      "Contracts over a ledger of C++'s allocations and a model of its control blocks, for representative object types; compile-time contracts decided by rustc. Trusted: rustc, Kani, CBMC, the models of operator new and std::__shared_weak_count."),
    P("C18", "A C++ vector does in Rust what a Vec does, in memory C++ can free",
      "Every operation on cc_std's vector leaves the elements that the operation of the same name leaves in a Vec, none of them lost, duplicated or dropped twice. The vector then still is one C++ can use and free: one operator new block of exactly its capacity, null when it has none, with its unused tail annotated as C++ expects under AddressSanitizer. While the caller's code runs inside an operation, the vector can be dropped safely, should that code panic.",
      ["inputs", "histories", "faults"], "for all elements; vectors of up to four elements, with and without room",
      "The repository's suite compiles none of this file here; an operation on a vector with no memory, no room or no elements each takes a different path, and a panic in a callback a further one.",
      ["support/cc_std_impl/vector.rs", "support/cc_std_impl/vector_partial_eq.rs", "support/cc_std_impl/cpp_std_allocator.rs"],
      [("all operations", "support/cc_std_impl/vector.rs vector::mutate_self_as_vec"), ("annotations", "support/cc_std_impl/vector.rs asan_poison_tail"), ("comparison", "support/cc_std_impl/vector_partial_eq.rs")],
      ["elements", "allocations", "annotations", "drops"], RUST,
      "Contracts for all elements of vectors of bounded length, in both layouts and with ASan's annotations; compile-time contracts decided by rustc. Trusted: rustc, Kani, CBMC, the models of operator new and of the annotation."),
    P("C19", "C++ strings and string views denote in Rust the bytes they hold in C++",
      "A C++ string made in Rust, or a view given to or received from C++, has exactly the bytes it was made from, at C++'s own address and without a copy, also when it is empty or null; it becomes text only if it is UTF-8. Strings compare, order and hash by their bytes, are copied or moved as C++ does it, never moved bit by bit, and destroyed exactly once. No slice, text or view that safe code obtains outlives its bytes.",
      ["inputs", "histories"], "for all contents of up to three bytes; for views made by C++ of any length",
      "The repository's suite compiles none of these files here; empty and null views, bytes that are not UTF-8 and a string that is never destroyed behave well in ordinary use.",
      ["support/cc_std_impl/string.rs", "support/cc_std_impl/string_view.rs", "support/cc_std_impl/slice_ptr.rs", "support/cc_std_impl/lossy_utf8.rs", "support/cc_std_impl/conversion_function_helpers.h"],
      [("strings", "support/cc_std_impl/string.rs string_wrapper, new_string"), ("views", "support/cc_std_impl/string_view.rs"), ("slice pointers", "support/cc_std_impl/slice_ptr.rs")],
      ["bytes", "addresses", "live C++ strings"], RUST,
      "Contracts for all contents over a model of std::string's contract that checks how it is called; compile-time contracts decided by rustc. Trusted: rustc, Kani, CBMC, the model of std::string."),
    P("C20", "Rust callables and futures run in C++ as Rust allows and end once",
      "A Rust callable given to C++ runs with the arguments and result of its call, may be moved, swapped and given back to Rust as the same callable, is destroyed exactly once by its last owner, and one that may be called only once is never run or handed on again. A Rust future polled from C++ delivers its result into the given place exactly when it is ready, is then or when discarded destroyed once, and is neither moved nor polled after that. Every waker made from a C++ waker keeps it alive, wakes it, and releases it exactly once.",
      ["inputs", "histories"], "for all arguments, results and states of the wakers; over histories of moves, calls and polls",
      "The repository's suite compiles none of these files here; moving an object onto itself, calling a consumed callable or cloning a waker inside poll goes unnoticed in ordinary use.",
      ["support/rs_std/dyn_callable.h", "support/rs_std/dyn_callable.rs", "support/rs_std/erased_future.rs", "support/rs_std/dyn_erased_future.h", "support/rs_std/dyn_erased_future.rs", "support/rs_std/dyn_future.rs", "support/rs_std/waker.h", "support/rs_std/waker.cc", "support/rs_std/cpp_waker.h", "support/rs_std/cpp_waker.cc"],
      [("callables", "support/rs_std/dyn_callable.h DynCallable, support/rs_std/dyn_callable.rs manager, DynCallableAbi"), ("futures", "support/rs_std/dyn_erased_future.rs, dyn_future.rs, erased_future.rs"), ("wakers", "support/rs_std/waker.cc, cpp_waker.cc")],
      ["results", "calls", "destructions", "waker counts"], RUST + "; " + CPP,
      "Contracts on both sides, each against the contract of the other; representative callables and futures. Trusted: Kani, CBMC, clang's front end, ir2c, rustc, the model of absl::AnyInvocable."),
    P("C21", "A generated C++ function does what the Rust function it stands for does",
      "Every C++ function that the generator makes for a Rust function or method calls exactly that function, once, with the arguments of its call in their places, and returns its result, for every type of argument and result that it accepts: scalars, references, pointers, slices, strings, tuples, arrays, options, results, plain objects and objects with a destructor. An object given by value is dropped exactly once, by Rust, and one returned by value exactly once, by C++. Constness, value categories and the aliasing rules of the Rust signature are those of the C++ function.",
      ["inputs"], "for all arguments and results of every function of a corpus that has every kind of signature",
      "The repository's generator tests compare text that the generator produces and never compile or run it; a leaked temporary, a swapped argument or a wrong width reads like the correct text.",
      ["cc_bindings_from_rs/generate_bindings/generate_function.rs", "cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs", "cc_bindings_from_rs/generate_bindings/format_type.rs", "support/bridge.h", "support/internal/slot.h"],
      [("API functions and thunk calls", "cc_bindings_from_rs/generate_bindings/generate_function.rs"), ("thunks", "cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs generate_thunk_decl, generate_thunk_impl"), ("types", "cc_bindings_from_rs/generate_bindings/format_type.rs")],
      ["results", "calls", "drops", "compiler verdict"], GEN,
      "The generated code is proved for all values; the generator is validated on a corpus, not proved for all crates. Trusted: rustc, clang, llvm-link, ir2c, CBMC."),
    P("C22", "A generated C++ type has the layout and the special members of its Rust type",
      "The C++ class generated for a Rust struct or union has its size, alignment and field offsets, so that what either language writes to a public field the other reads, and private fields and types stay private. It is default-constructible, copyable, movable and destructible exactly where the Rust type allows it, and these members run Default, Clone and Drop exactly as often as objects come and go, however they are constructed, copied, moved, swapped or assigned, to themselves too. Types that cannot be moved in C++ are never relocated behind the back of their owner.",
      ["inputs", "histories"], "for all field values and histories of special members of every kind of struct and union in a corpus",
      "The repository's generator tests compare text and never run it; a wrong offset, a double drop or a leak in a special member shows only for particular layouts and histories.",
      ["cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs", "cc_bindings_from_rs/generate_bindings/format_type.rs", "support/internal/memswap.h", "support/internal/slot.h"],
      [("class definitions", "cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs"), ("relocation", "support/internal/memswap.h")],
      ["field values", "layouts", "live objects", "compiler verdict"], GEN,
      "The generated code is proved for all values and the listed histories; the generator is validated on a corpus, not proved for all crates. Trusted: rustc, clang, llvm-link, ir2c, CBMC."),
    P("C23", "Generated enums, options, results and tuples are the variants they are in Rust",
      "The C++ type generated for a Rust enum, with or without payloads, has its layout and discriminants; C++ makes, recognizes and compares the variants that Rust makes, recognizes and compares, and a payload is reached only through its variant. Options, results and tuples cross by value, by reference and as fields with the case they are in and the payload of that case, whether the layout uses a tag or a niche. Each payload is dropped exactly once, through every construction, copy, move, assignment and change of variant.",
      ["inputs", "histories"], "for all payloads and variants of every kind of enum, option, result and tuple in a corpus",
      "The repository's generator tests compare text and never run it; a misplaced tag, an option written in the wrong layout or a payload dropped twice looks like correct text.",
      ["cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs", "cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs", "support/rs_std/option.h", "support/rs_std/result.h", "support/bridge.h"],
      [("enums", "cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs"), ("options and results", "support/rs_std/option.h, support/rs_std/result.h and their generated specializations"), ("bridging", "cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs write_rs_value_to_c_abi_ptr")],
      ["variants", "payloads", "live objects", "compiler verdict"], GEN,
      "The generated code is proved for all values and the listed histories; the generator is validated on a corpus, not proved for all crates. Trusted: rustc, clang, llvm-link, ir2c, CBMC."),
    P("C24", "Generated operators, conversions, traits and constants mean what Rust's mean",
      "An operator, comparison, index or conversion of a generated C++ type calls the Rust implementation of its trait for these operands and gives its result; it exists, is explicit, const or consuming exactly as the Rust signature says, and comparisons agree with PartialEq, PartialOrd and Ord, also where values are not ordered. Iterating in C++ gives the items of the Rust iterator, each once and in order; a trait's methods and constants are those of the implementing type. Constants have the type and value, and items all the names, that they have in Rust.",
      ["inputs"], "for all operands of every operator, conversion, iterator and trait of a corpus",
      "The repository's generator tests compare text and never run it; an operator mapped to its neighbour, a swapped comparison or a truncated constant reads like correct text.",
      ["cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs", "cc_bindings_from_rs/generate_bindings/generate_function.rs", "cc_bindings_from_rs/generate_bindings/lib.rs", "support/rs_std/iterator_adapter.h"],
      [("operators and comparisons", "cc_bindings_from_rs/generate_bindings/generate_struct_and_union.rs"), ("functions and methods", "cc_bindings_from_rs/generate_bindings/generate_function.rs"), ("constants, aliases, traits", "cc_bindings_from_rs/generate_bindings/lib.rs")],
      ["results", "items", "constant values", "compiler verdict"], GEN,
      "The generated code is proved for all values; the generator is validated on a corpus, not proved for all crates. Trusted: rustc, clang, llvm-link, ir2c, CBMC."),
    P("C30", "Rust bindings generated for a C++ header mean what the header says",
      "Every Rust item that rs_bindings_from_cc generates for a C++ header has the layout, the special members, the functions, the lifetimes and the names of the C++ declaration it stands for. Declarations it cannot bind faithfully are left out and reported.",
      ["inputs"], "for all C++ headers", "Generator tests compare text.",
      ["rs_bindings_from_cc/importer.cc", "rs_bindings_from_cc/generate_bindings/lib.rs"],
      [("importer", "rs_bindings_from_cc/importer.cc"), ("generator", "rs_bindings_from_cc/generate_bindings/lib.rs")],
      ["values crossing the boundary"], "none", "not claimed"),
]
NOT_APPLICABLE = {"C30": "rs_bindings_from_cc is linked against clang's and LLVM's C++ libraries, protobuf and abseil, none of which is installed: neither it nor what it generates exists in this sandbox, so there is no code to put under contract."}
