PROPS = []


def P(**k):
    PROPS.append(k)


P(id="A01", title="Active object runs every sent functor once, in order, on its own thread",
  statement="Every functor sent to an Active before its destruction begins is run exactly once, in the order the "
            "sends took effect, on the Active's own thread and with none of the Active's locks held. Destroying an "
            "Active first lets all functors already queued run and then waits for the thread to finish; sends and the "
            "thread never touch shared state without a common lock, and no wake-up is lost.",
  over=["schedules", "histories"],
  quant="every interleaving of any number of sending threads, the worker thread and the destructor, including "
        "spurious wake-ups and functors that send again",
  why="No stable test touches Active at all; a test samples a few interleavings and cannot provoke a lost wake-up, a "
      "spurious wake-up or a race on the stop flag on demand.",
  files=["include/maidsafe/common/active.h", "src/maidsafe/common/active.cc"],
  mech=[("mutex-guarded FIFO and condition variable", "Active::Send, Active::Run"),
        ("stop request sent through the queue, then join", "Active::~Active")],
  observe=["order and number of functor runs", "thread id inside functors", "return of ~Active"],
  technique="interprocedural lockset and typestate dataflow over the control-flow graph",
  note="Every path of the current sources, with calls and lambdas entered; trusts the clang CFG, std/boost mutex, "
       "queue and condition-variable semantics. Decides ordering, exactly-once, off-lock, no-lost-wakeup and "
       "shutdown structure; fairness and timing are not decided.")

P(id="A02", title="SafeQueue hands each element to exactly one consumer, oldest first",
  statement="Whatever threads push, try-pop and wait-and-pop concurrently, each pushed element is handed to exactly "
            "one consumer, oldest first, and a blocked consumer is woken for every element pushed. A non-blocking pop "
            "reports success exactly when it handed over an element and refuses only if the queue was empty at that "
            "moment; no operation touches the queue outside its lock.",
  over=["schedules", "histories"],
  quant="every interleaving of any number of producers and consumers, including spurious wake-ups",
  why="SafeQueue has no test; interleavings and spurious wake-ups cannot be enumerated by running it.",
  files=["include/maidsafe/common/safe_queue.h"],
  mech=[("one mutex around test, take and remove", "SafeQueue::TryPop, SafeQueue::WaitAndPop"),
        ("notification after every insertion", "SafeQueue::Push")],
  observe=["elements received by consumers", "return value of TryPop"],
  technique="lockset and typestate dataflow over the control-flow graph of the instantiated template",
  note="All paths of two instantiations; trusts std::queue, std::mutex and std::condition_variable.")

P(id="A03", title="IoService starts with workers, stops cleanly and refuses self-stop",
  statement="An IoService asked for zero threads throws invalid_argument without having started anything; otherwise "
            "its workers run posted handlers until Stop or destruction, which lets work already posted finish, waits "
            "for every worker, and may be repeated without effect. Stop called from a worker throws "
            "cannot_invoke_from_this_thread and leaves the service exactly as it was, and an exception escaping a "
            "handler is never swallowed.",
  over=["schedules", "histories", "inputs"],
  quant="any thread count, any number of Stop calls from any threads, any handlers posted, thrown or running",
  why="The asio_service test is not built here and only starts and stops once from the main thread; worker-thread "
      "stops, throwing handlers and concurrent stops are never exercised.",
  files=["include/maidsafe/common/asio_service.h"],
  mech=[("zero-count check before threads start", "IoService constructor"),
        ("caller check, release of the work object, join, clear", "IoService::Stop")],
  observe=["exceptions from construction and Stop", "ThreadCount()", "handlers run"],
  technique="typestate and lockset dataflow over the control-flow graph, with exception edges",
  note="All paths of both instantiations (asio, boost::asio); trusts io_service and std::thread.")

P(id="B01", title="Hexadecimal coding is exact and refuses everything malformed",
  statement="Encoding any bytes to hexadecimal gives two lower-case digits per byte, high nibble first, and never "
            "fails. Decoding accepts exactly the texts of even length made of lower-case digits 0-9a-f, returns the "
            "bytes whose encoding they are, in both the string and the byte-vector form, and throws "
            "invalid_conversion for every other text without reading outside its tables; the abbreviated form is the "
            "encoding itself when it has at most 14 characters and otherwise its first six, two dots and its last six.",
  over=["inputs"], quant="every byte string, including bytes of 0x80 and above and zero bytes",
  why="The encode tests are not part of the build here and check random strings and a few vectors; the acceptance "
      "set of the decoder is a statement about every character in every position.",
  files=["include/maidsafe/common/encode.h", "src/maidsafe/common/encode.cc"],
  mech=[("two table look-ups per byte", "hex::Encode"), ("length and alphabet checks before any look-up",
        "hex::Decode"), ("abbreviation", "detail::GetSubstr")],
  observe=["returned text or bytes", "thrown error"],
  technique="abstract interpretation of the syntax tree in a per-bit boolean-function domain, partitioned by length",
  note="Contents are unconstrained; lengths 0..10 (quick) or 0..40 encoding / 0..32 decoding (thorough): the "
       "per-length partition is the bound. Trusts the models of std::string and std::vector.")

P(id="B02", title="Base-64 coding is exact and refuses everything malformed",
  statement="Encoding any bytes to base-64 gives the standard padded text and never fails. Decoding accepts exactly "
            "the texts whose length is a multiple of four, whose padding is absent or one or two final '=' and whose "
            "other characters are in the standard alphabet, returns the bytes they encode, in both the string and the "
            "byte-vector form, and throws invalid_conversion for every other text; the abbreviated form follows the "
            "same rule as for hexadecimal.",
  over=["inputs"], quant="every byte string, including bytes of 0x80 and above and zero bytes",
  why="The encode tests are not part of the build here and use a handful of vectors; padding and alphabet errors are "
      "a statement about every character in every position.",
  files=["include/maidsafe/common/encode.h", "src/maidsafe/common/encode.cc"],
  mech=[("quantum packing and padding switch", "base64::Encode"),
        ("character classification and padding switch", "base64::Decode")],
  observe=["returned text or bytes", "thrown error"],
  technique="abstract interpretation of the syntax tree in a per-bit boolean-function domain, partitioned by length",
  note="Contents are unconstrained; lengths 0..13 (quick) or 0..48 encoding / 0..32 decoding (thorough): the "
       "per-length partition is the bound. Trusts the models of std::string and std::vector.")

P(id="B03", title="BoundedString never holds a string outside its bounds",
  statement="Constructing a BoundedString succeeds exactly when the string's size is within the bounds, otherwise it "
            "throws outside_of_bounds; an initialised instance holds exactly the given bytes. A default instance is "
            "initialised only if the bounds allow an empty string; every content accessor of an uninitialised one "
            "throws uninitialised, it can be assigned to, and copies, moves and conversions carry value and "
            "initialisation along. Comparison is the strings' order with uninitialised instances equal and first; "
            "exclusive-or is bitwise; streaming shows the abbreviated hexadecimal form of the current value.",
  over=["inputs"], quant="every string, every instance initialised or not (a moved-from source excepted)",
  why="The bounded-string tests are not built here and use random strings of a few sizes for a few bounds; no test "
      "compares or streams copies, conversions and uninitialised instances in every combination.",
  files=["include/maidsafe/common/bounded_string.h"],
  mech=[("bounds check after construction", "BoundedString constructors, OutwithBounds"),
        ("validity check before access", "BoundedString::string, operator[], operator^")],
  observe=["exceptions", "string(), size(), operator[]", "comparison results", "streamed text"],
  technique="abstract interpretation of the instantiated templates in a per-bit boolean-function domain, partitioned "
            "by length",
  note="Instantiated for the bounds 0-3, 0-max, 1-3, 1-max, 2-4 and 3-3 over std::string and std::vector, with and "
       "without NDEBUG; contents unconstrained, lengths 0..6 (thorough 0..9).")

P(id="B05", title="Identities compare by exclusive-or distance and convert without loss",
  statement="CloserToTarget says whether the first identity's exclusive-or distance to the target, read as an unsigned "
            "number, is strictly smaller than the second's, so it is a strict total order for each target. "
            "CommonLeadingBits is exactly the number of leading bits two identities share, 512 when equal. The "
            "hexadecimal and base-64 forms are those of the 64 bytes, the binary form has 512 characters, most "
            "significant bit first, and each form makes back the identity it came from. Making an identity from a text "
            "of the wrong length or alphabet throws invalid_identity, and no uninitialised identity is compared or "
            "encoded.",
  over=["inputs"], quant="every pair and triple of 64-byte identities and every text",
  why="Identities are 512 bits; the tests (not built here) use random ones, which differ in the first byte nearly "
      "always, so the deciding byte, its ties and high bits are hardly ever reached.",
  files=["src/maidsafe/common/identity.cc", "include/maidsafe/common/identity.h",
         "src/maidsafe/common/identity_common_bits_matrix.h"],
  mech=[("byte-wise comparison of the two distances", "CloserToTarget"),
        ("first mismatch and bit-count table", "CommonLeadingBits"), ("length and alphabet refusal", "MakeIdentity")],
  observe=["comparison results", "bit counts", "encoded text", "thrown error"],
  technique="abstract interpretation of the syntax tree in a per-bit boolean-function domain",
  note="Contents unconstrained at the real size of 64 bytes, except that malformed texts are checked for a set of "
       "lengths and, for the alphabet, one bad character at a set of positions. Leading bits: mismatch positions 0, 1, "
       "30, 63 (thorough: all 64). Trusts the models of std::vector, std::string and std::bitset.")

P(id="B07", title="SipHash is SipHash-2-4 for every key, input and cutting into pieces",
  statement="After any sequence of Update calls the value of Finalize is SipHash-2-4, as published by Aumasson and "
            "Bernstein, of the key and the concatenation of the pieces: it depends on every byte but not on how the "
            "input was cut into pieces (empty pieces included), nor on earlier calls of Finalize, which leaves the state "
            "unchanged. A copy of a SipHash continues from the same state.",
  over=["inputs", "histories"], quant="every key, every input up to the stated lengths, every way to cut it into two or three pieces",
  why="The vectors used by tests have small ascending bytes and one way of cutting; sign extension, truncation of "
      "lengths and remainder handling show for other bytes, lengths and cuts only.",
  files=["src/maidsafe/common/hash/algorithms/siphash.cc", "include/maidsafe/common/hash/algorithms/siphash.h"],
  mech=[("little-endian words", "U8TO64_LE"), ("rounds", "SIPROUND"), ("remainder of an unfinished word", "SipHash::Update"),
        ("length modulo 256 in the last word", "FinalizeInternal")],
  observe=["Finalize()"],
  technique="abstract interpretation of the syntax tree in a per-bit boolean-function domain, compared with the published "
            "function written out in the driver; 64-bit addition is one uninterpreted commutative function on both sides",
  note="Bytes and keys unconstrained; lengths up to 17 bytes plus 261 (thorough: up to 33, and 248 to 515), two cuts at "
       "every position of the selected lengths. Lengths beyond 2^32 are not explored.")

P(id="B09", title="Errors keep their code through exceptions, integers and categories",
  statement="For every enumerator of every error enumeration: make_error_code and make_error_condition carry its value "
            "in the enumeration's own category, the ten categories are pairwise different, MakeError gives an exception "
            "of the enumeration's exception class carrying that code, and ErrorToInt followed by IntToError gives the "
            "code back through fixed wire values (category base 100000, 200000, ... plus value, negated). Integers of no "
            "category are refused with parsing_error and foreign categories with serialisation_error. Different errors "
            "of one category have different, non-empty messages, and errors with a portable counterpart map to it.",
  over=["inputs"], quant="every enumerator of the ten error enumerations, and pairs of them",
  why="The errors test is not built here and converts two errors and two integers; a swapped category, message or "
      "portable condition for any of the other eighty is not seen.",
  files=["include/maidsafe/common/error.h", "src/maidsafe/common/error.cc", "src/maidsafe/common/error_categories.cc"],
  mech=[("category accessor per enumeration", "GetCommonCategory ... GetApiCategory"),
        ("category base and value", "ErrorToInt, IntToError"), ("switch per category", "message, default_error_condition")],
  observe=["std::error_code of exceptions", "integer form", "message()", "comparison with std::errc"],
  technique="abstract interpretation of the syntax tree over all enumerators",
  note="Enumerators are taken from the current sources, so new ones are included. Integers of no category are a "
       "boundary sample. The list of portable counterparts is written out in drivers/errors.cc.")

P(id="B04", title="Data objects keep the name their content demands",
  statement="Immutable data made from content hold that content, have its SHA-512 hash as name and type 0; mutable data "
            "hold the given name and content and have type 1. A default object is uninitialised and every accessor and "
            "save throws uninitialised; making data from uninitialised parts is refused. Copies and moves keep name and "
            "content. Loading what was saved gives the object back; loading immutable data succeeds exactly when the "
            "name is the hash of the content, and incomplete or mismatching data throw parsing_error. Names with types "
            "are ordered by name, then type, consistently over all six comparisons.",
  over=["inputs"], quant="every content and name, every archive content",
  why="The data type tests are not built here and use random contents; a wrong name, a half-filled archive or two "
      "names that agree are never generated.",
  files=["include/maidsafe/common/data_types/data.h", "src/maidsafe/common/data_types/data.cc",
         "include/maidsafe/common/data_types/immutable_data.h", "src/maidsafe/common/data_types/immutable_data.cc",
         "include/maidsafe/common/data_types/mutable_data.h", "src/maidsafe/common/data_types/mutable_data.cc"],
  mech=[("name derived from content at construction", "ImmutableData constructor"),
        ("name compared with the hash after reading", "ImmutableData::load"),
        ("initialisation checks", "Data::Name, Data::TypeId, Value"), ("lexicographic comparison", "operator< on NameAndTypeId")],
  observe=["Name(), Value(), TypeId(), NameAndType()", "thrown error", "comparison results", "what an archive receives"],
  technique="abstract interpretation of the syntax tree in a per-bit boolean-function domain; the hash is an "
            "uninterpreted function",
  note="Contents unconstrained, names at their real 64 bytes, contents of 1 and 3 bytes (thorough: six lengths up to "
       "64). The archive is a stand-in that hands over or takes whole members; byte layout is property B06.")

P(id="C02", title="LruCache evicts the least recently used key, within capacity and lifetime",
  statement="An LruCache never holds more keys than its capacity (none with capacity 0). Adding a key that is already "
            "held changes nothing, adding a new one to a full cache evicts exactly the key whose last Add or Get is "
            "oldest, Get returns the value added first for the key (no_such_element otherwise) and makes the key the "
            "most recently used, Delete removes exactly that key, and size and Check agree with this at every moment. "
            "With a time to live, adding a new key first drops the entries at the least recently used end that were "
            "added longer ago than that, and no others. The key-only filter behaves the same.",
  over=["inputs", "histories"],
  quant="every sequence of up to six operations on arbitrary keys and values, capacities 0 to 2 (thorough: 3), ages "
        "around the time to live",
  why="The cache test is not built here and follows a few fixed sequences; an order or bookkeeping slip that needs a "
      "Get or Delete between particular additions does not show.",
  files=["include/maidsafe/common/containers/lru_cache.h"],
  mech=[("key order list linked to the map", "LruCacheBase::PrepareToAdd, RemoveOldestElement"),
        ("refresh by splice", "LruCache::Get, Delete"), ("age of the front entry", "CheckTimeExpired")],
  observe=["results of Get, Check and size after a sequence of operations"],
  technique="abstract interpretation of the syntax tree: symbolic keys and values, containers with element identity, "
            "compared with a reference in the same domain",
  note="Operation sequences and capacities are bounded, keys and values are not. Keys are bytes and strings of up to two characters. The steady clock is a "
       "variable set between operations.")

P(id="B12", title="Hashing feeds an algorithm exactly the bytes of the values, unambiguously",
  statement="What hash(a, b, ...) or hash & a & b gives the algorithm is a fixed byte stream that depends on the values "
            "alone: arguments one after the other; integers and characters as their bytes in native order; floating "
            "point numbers likewise, with -0 treated as +0; strings, vectors, arrays, C arrays, lists, forward lists, "
            "sets, maps and initializer lists as their elements in order followed by the number of elements as 8 "
            "bytes, also when empty; pairs and tuples as their members in order, never including padding; a user type "
            "as its HashAppend says or, where enabled, as its serialize or save says, with its hash version. Constant "
            "and temporary arguments hash like any other.",
  over=["inputs"], quant="every value of the scalars, strings and containers of up to three elements (thorough: nine)",
  why="The hash tests are not built here; they compare hashes of chosen values, and padding bytes or a count left out "
      "only show for particular stack contents or colliding inputs.",
  files=["include/maidsafe/common/hash/algorithms/hash_algorithm_base.h", "include/maidsafe/common/hash/hash_range.h",
         "include/maidsafe/common/hash/hash_data_range.h", "include/maidsafe/common/hash/hash_contiguous.h",
         "include/maidsafe/common/hash/hash_numeric.h", "include/maidsafe/common/hash/hash_pair.h",
         "include/maidsafe/common/hash/hash_tuple.h", "include/maidsafe/common/hash/hash_use_serialize.h"],
  mech=[("count after the elements", "HashAppend for ranges"), ("contiguous only without padding", "IsContiguousHashable"),
        ("zero normalised", "HashAppend for floating point"), ("argument order", "HashAlgorithmBase::Process")],
  observe=["bytes passed to Update"],
  technique="abstract interpretation of the syntax tree: the byte stream a recording algorithm receives is compared, bit "
            "by bit, with the expected one; object bytes are modelled with their padding undefined",
  note="Scalars unconstrained. Which overload a type selects is the compiler's answer for the types in the driver; other "
       "element types of the same containers are not instantiated. The algorithm itself (SipHash) is property B07.")

P(id="B08", title="Tagged values and printable enumerations behave as their plain values",
  statement="A TaggedValue holds the value it is given, whole, through copies, moves and assignments; converts to it, "
            "gives access to it with ->, saves and loads exactly it; and the six comparisons of two tagged values are "
            "those of the values, also for equal values in different objects. An enumeration defined with "
            "DEFINE_OSTREAMABLE_ENUM_VALUES numbers its enumerators from 0 in order, IsValid holds for exactly the "
            "enumerators over every value of the underlying type, and streaming writes the enumerator's name without "
            "the k, or 'Invalid <name> type' for any other value.",
  over=["inputs"], quant="every value of integers of all widths, strings of up to three characters (thorough: seven)",
  why="The tagged value test is not built here and compares random distinct values; there is no test of the "
      "enumerations' IsValid and invalid values.",
  files=["include/maidsafe/common/tagged_value.h", "include/maidsafe/common/type_macros.h",
         "include/maidsafe/common/types.h"],
  mech=[("comparisons by value", "operators on TaggedValue"), ("range check", "IsValid"),
        ("name table", "operator<< of an enumeration")],
  observe=["comparison results", "values held", "IsValid", "text written to a stream"],
  technique="abstract interpretation of the syntax tree in a per-bit boolean-function domain",
  note="Integers unconstrained. Floating point values are not covered. Streams are narrow.")

P(id="B10", title="Conversions between address and string forms lose nothing",
  statement="ToBoost and ToAsio give an address with the same bytes, kind (IPv4 or IPv6, also for mapped addresses) and "
            "scope id, and an endpoint with the same address and port; converting there and back gives the original. "
            "ToByteVector and ToString keep every byte and the length, zero bytes included, and are inverse to each "
            "other. ToStd keeps the error's value, in the generic category.",
  over=["inputs"], quant="every address, scope, port and error value; strings of up to five bytes (thorough: 32)",
  why="The conversion test is not built here and uses random addresses and eight scopes; mapped, special or "
      "zero-containing values are not among them.",
  files=["include/maidsafe/common/convert.h"],
  mech=[("address built from the other's bytes and scope", "convert::ToBoost, convert::ToAsio"),
        ("copy of the range", "convert::ToByteVector, convert::ToString")],
  observe=["to_bytes(), scope_id(), is_v4(), port() of the result", "bytes of the string"],
  technique="abstract interpretation of the syntax tree in a per-bit boolean-function domain",
  note="The address classes of asio and Boost are modelled as values.")

P(id="B06", title="What is serialised parses back unchanged; incomplete data never parses",
  statement="Serialise and ConvertToString write the values one after the other: an arithmetic value as its bytes, a "
            "string or vector as an eight-byte length and its elements, a network address as a one-byte length and 4 or "
            "16 bytes, a path as its text, a user type as its members. Parse and ConvertFrom give back equal values of "
            "the same kind from exactly these bytes and ignore data that follows. Data cut at any point always ends in "
            "an exception, never in a value. An address of another length and a text outside a bounded string's bounds "
            "are refused with parsing_error. A stream used again is added to, or read on, where the last use ended.",
  over=["inputs"], quant="every value of the scalar types; strings and vectors of up to three elements (thorough: nine); every "
                         "cut of the data",
  why="The serialisation tests are not built here and use a handful of values; they do not cut data short and do not look "
      "at the bytes.",
  files=["include/maidsafe/common/serialisation/binary_archive.h", "include/maidsafe/common/serialisation/serialisation.h",
         "include/maidsafe/common/serialisation/types/asio_and_boost_asio.h",
         "include/maidsafe/common/serialisation/types/boost_filesystem.h", "include/maidsafe/common/bounded_string.h"],
  mech=[("short reads and writes raise", "BinaryInputArchive::loadBinary, BinaryOutputArchive::saveBinary"),
        ("length byte", "detail::Save, detail::Load of addresses")],
  observe=["bytes of the result", "parsed values", "exceptions"],
  technique="abstract interpretation of the syntax tree (including cereal's) in a per-bit boolean-function domain",
  note="cereal/types/boost_optional.hpp is not installed; a stand-in with cereal's own code is used. Streams of Boost.Interprocess "
       "and the standard library are modelled as sequences of bytes. The scope of an IPv6 address is not saved. Flyweight and "
       "polymorphic pointers are left out.")

P(id="C03", title="StructuredDataVersions keeps the documented tree of versions",
  statement="In whatever order versions arrive, Get returns exactly the versions without children, from highest to lowest, and "
            "GetBranch the path from a tip from parent to parent to the root or an orphan; a version whose parent is absent waits "
            "as an orphan and joins it on arrival. Put refuses, with the documented error and without changing anything, a second "
            "root, a known version under another parent, a circular chain, an uninitialised name and a branch too many; at "
            "max_versions it erases and returns the root, which its lowest child, or else the lowest orphan, replaces. "
            "DeleteBranchUntilFork erases exactly the branch down to the fork. A serialised container parses back to the same "
            "tree, root, orphans and limits; malformed data raises parsing_error; ApplySerialised yields the union under the "
            "parsed limits; swap exchanges everything, and both containers stay usable.",
  over=["inputs", "histories"],
  quant="trees and forests of four versions in every order of arrival and every ordering of their indices, followed by up to two "
        "operations, with and without room",
  why="There is no test of StructuredDataVersions in the tree.",
  files=["include/maidsafe/common/data_types/structured_data_versions.h",
         "src/maidsafe/common/data_types/structured_data_versions.cc",
         "src/maidsafe/common/data_types/structured_data_versions_cereal.h"],
  mech=[("tips, orphans and root kept in step", "StructuredDataVersions::Insert, Unorphan, UnorphanRoot, SetVersionAsChildOfItsParent"),
        ("checks before any change", "StructuredDataVersions::Put, CheckForUnorphaning, CheckVersionNotInBranch, CheckBranchCount"),
        ("replacement of the root", "ReplaceRootFromChildren, ReplaceRootFromOrphans"),
        ("iterators re-homed after map swap", "swap(StructuredDataVersions&, StructuredDataVersions&)")],
  observe=["Get()", "GetBranch()", "returned version", "error codes", "limits"],
  technique="abstract interpretation of the syntax tree against a reference model of the documented tree, itself evaluated "
            "abstractly, in a per-bit boolean-function domain",
  note="Trees of up to six versions; four in quick runs are of fixed shape with one (arrival order: three) unconstrained indices. "
       "std::async is evaluated in place, so races among the checking tasks, which only read, are not considered. A version put "
       "under its own name and malformed data of unbounded nesting are left out.")

P(id="F01", title="Scope guards act exactly once; make_unique passes its arguments on",
  statement="The action of an on_scope_exit runs exactly once, when its scope is left and not before, whether by its end, by "
            "return or by an exception, which is passed on; guards act in reverse order of their making. A released guard runs "
            "nothing; setting another action replaces it without running either. If the guard cannot keep its action, the action "
            "runs at once and the constructor throws. RevertValue restores the value the variable had when it was called, without "
            "touching it before. make_unique makes the object from exactly the arguments given, references as references and "
            "expiring values moved, and value-initialises otherwise, every element of an array included.",
  over=["inputs", "histories"],
  quant="every way of leaving the scope, any values of numbers, texts and byte vectors, both compilers' branches of the header",
  why="The tests of the guard are not built here and check one integer vector; no test lets the guard's own construction fail or "
      "replaces an action twice.",
  files=["include/maidsafe/common/on_scope_exit.h", "include/maidsafe/common/make_unique.h"],
  mech=[("action called by the destructor if there is one", "on_scope_exit::~on_scope_exit, SetAction, Release"),
        ("action called if it cannot be kept", "function try block of the on_scope_exit constructor"),
        ("copy of the value bound", "on_scope_exit::RevertValue"), ("perfect forwarding", "make_unique")],
  observe=["number and order of action runs", "values after the scope", "exceptions"],
  technique="abstract interpretation of the syntax tree, with destructors run at scope ends, in a per-bit boolean-function domain",
  note="The header is analysed both as clang (boost::bind) and as other compilers (std::bind) see it. std::function and std::bind "
       "are modelled; making a std::function is the only allocation made to fail.")

P(id="F02", title="Menus follow the typed answers, whatever is typed",
  statement="A menu item has a non-empty name, unlike those of its siblings, its parent and its children in the order they were "
            "added; a refused item changes nothing. Menu::Run reads answers until 0 and then returns 0: the number of an item "
            "shown runs its operation once and, if it has items of its own, leads to them; 99 leads back to the parent; after a "
            "leaf the same menu is shown again; anything else typed is refused and changes nothing. Run again, the menu goes on "
            "where it was. An operation's exception, or the end of the input, ends Run with the corresponding error code, never "
            "with 0 or an endless loop, and a menu without items can be left like any other.",
  over=["inputs", "histories"],
  quant="every sequence of up to four typed lines (numbers, wrong numbers, text, nothing) over three levels, any index, any names",
  why="The menu tests are not built here and type valid answers only; none ends the input, throws from an item or adds no items.",
  files=["include/maidsafe/common/menu.h", "include/maidsafe/common/menu_item.h", "src/maidsafe/common/menu.cc",
         "src/maidsafe/common/menu_item.cc", "include/maidsafe/common/cli.h"],
  mech=[("current item moved by each answer", "Menu::Run"), ("name and index checks", "MenuItem::AddChildItem, MenuItem::Child"),
        ("errors mapped to a result", "Menu::Run")],
  observe=["operations run", "result of Run", "exceptions of AddChildItem and Child"],
  technique="abstract interpretation of the syntax tree against a reference walk, itself evaluated abstractly, with the console "
            "modelled as a stream of lines",
  note="What is shown is not compared. Typed lines are enumerated, names and indices unconstrained. Going back to a menu that has an "
       "operation of its own runs it again; the property leaves that open.")

P(id="F03", title="Console input is typed, checked, and always gives the echo back",
  statement="CLI::Get reads exactly one line and gives what its first word means as the type asked for; a line without one, or "
            "with a number that does not fit, raises invalid_argument, and the end of the input raises unknown. While the line is "
            "read the terminal echoes if and only if that was asked for; afterwards, however Get is left, it echoes, and no other "
            "flag of the terminal is ever changed; without a terminal nothing is set. GetPassword never echoes, asks again until "
            "both entries are the same, and gives the SHA512 hash of the password. TokeniseLine gives the words of the line in "
            "order, the first led by two dashes.",
  over=["inputs", "histories"],
  quant="every terminal state (all values of its flags) or none, echo on or off, lines with and without numbers, words of any "
        "characters, any passwords",
  why="The tests of the CLI are not built here, have no terminal, and type nothing invalid.",
  files=["include/maidsafe/common/cli.h", "src/maidsafe/common/cli.cc", "include/maidsafe/common/on_scope_exit.h"],
  mech=[("echo restored by a scope guard", "CLI::Get"), ("read, change and write of the terminal's flags", "CLI::Echo"),
        ("repeated entry", "CLI::GetPassword")],
  observe=["values returned", "exceptions", "flags of the terminal"],
  technique="abstract interpretation of the syntax tree in a per-bit boolean-function domain, with the terminal's flags symbolic and "
            "destructors run on every way out",
  note="tcgetattr, tcsetattr, getline, stream extraction, the tokenizer and the hash function are modelled. Words are up to two "
       "characters (three in thorough runs). A password with a space in it is hashed up to the space, as the code has it.")

P(id="D01", title="Database work is all or nothing, and every failure reaches the caller",
  statement="A Database opens its file in the mode asked for or throws db_not_present, and its connection is closed exactly once, "
            "also when opening failed. A Transaction begins at once, asking up to 200 times while the engine refuses; it throws "
            "db_not_present immediately if the file is no database and unable_to_handle_request if it cannot begin. Commit asks "
            "as often, and throws unable_to_handle_request if it never works. A transaction that began ends exactly once: "
            "committed if Commit returned, otherwise rolled back when it is destroyed, however it is left. A Statement is the "
            "whole query, finalised exactly once; text and blobs of any content, also empty, are bound as copies with every byte, "
            "columns are read with every byte, and any result that means failure is thrown as db_error (db_not_present for a "
            "statement on no database). Destructors never throw, and every error message of the engine is freed.",
  over=["inputs", "histories", "crashes"],
  quant="every result code of every call of the engine (symbolic), 0 to 200 refusals with two different codes, all values of "
        "texts, blobs, columns, indices up to two bytes long (eight in thorough runs)",
  why="The tests use a database that works: nothing is refused, locked or damaged while they run, and no value has a zero byte.",
  files=["include/maidsafe/common/sqlite3_wrapper.h", "src/maidsafe/common/sqlite3_wrapper.cc"],
  mech=[("rollback by the destructor unless committed", "Transaction::~Transaction"), ("retries", "Transaction::Transaction, Commit"),
        ("result codes mapped to errors", "Transaction::Execute, Statement"), ("handles owned", "Database, Statement")],
  observe=["calls made to SQLite", "exceptions", "bytes bound and read"],
  technique="abstract interpretation of the syntax tree with destructors run on every way out, against a stand-in for SQLite's "
            "interface that records its calls and returns symbolic results",
  note="SQLite is replaced by a recording stand-in, itself evaluated abstractly; waiting is left out. The pragmas of the "
       "constructor may fail; that is not reported, as the code has it, and neither is a failed checkpoint.")

P(id="E01", title="Files are read and written whole, or the failure is reported",
  statement="WriteFile returns true only if the file then holds exactly the content given, whatever it held before; it returns "
            "false if the file cannot be opened, or if any of the content cannot be written, also when that shows only as the "
            "file is closed, and for a path without file name, which it leaves alone. ReadFile gives exactly the bytes of the "
            "file, or the error filesystem_io_error if the file cannot be opened, measured, or read whole; it never gives bytes "
            "that were not read. Neither throws. What WriteFile wrote is what ReadFile reads.",
  over=["inputs", "crashes"],
  quant="every content and every earlier content up to three bytes (eight in thorough runs), empty included; failure of opening, "
        "measuring, reading, writing and closing, and a file shorter than its size",
  why="The tests use files that can be opened, read and written; no test has a full disk, a refused file or a file that shrinks.",
  files=["src/maidsafe/common/utils.cc", "include/maidsafe/common/utils.h"],
  mech=[("state of the stream checked after reading", "ReadFile"), ("state of the stream checked after closing", "WriteFile")],
  observe=["results of ReadFile and WriteFile", "content of the file"],
  technique="abstract interpretation of the syntax tree over a model of one file and its streams with injected faults",
  note="File streams, file_size and path are modelled. Concurrent writers, permissions of the new file and durability after a "
       "power failure are outside the property.")

P(id="E02", title="Random values have the size, range and alphabet asked for, drawn under lock",
  statement="RandomString, RandomBytes and their alphanumeric forms give exactly the size asked for, and with two limits a size "
            "between them inclusive, for every pair of limits including the whole range of uint32_t; both limits are possible. "
            "Every byte of a random string can have every value; every character of an alphanumeric one is one of the 62 "
            "letters and digits, and each of them is possible. RandomInt32 and RandomUint32 can give every value of their type. "
            "Values follow one another rather than repeat. The generator and its seed are used only while the generator's "
            "mutex is held, which is never taken twice and always given back. Setting a seed makes the sequence start again: "
            "the same seed gives the same values, and the seed read is the seed set.",
  over=["inputs", "schedules"],
  quant="every draw of the generator (symbolic), sizes up to two (four in thorough runs), limits at both ends of uint32_t",
  why="A test samples a few draws: it cannot tell a value that never comes from one that is rare, draws too few to meet the "
      "last character or the full range, and one thread does not show a missing lock.",
  files=["include/maidsafe/common/utils.h", "src/maidsafe/common/utils.cc"],
  mech=[("lock around every draw", "GetRandomString, GetRandomAlphaNumericString, RandomInt"), ("seed", "set_random_number_generator_seed")],
  observe=["size and content of random strings", "the generator's mutex"],
  technique="abstract interpretation of the syntax tree with draws as free values of their range, a must-hold check of the mutex at "
            "every use of the generator, and satisfiability of the values claimed possible",
  note="std::mt19937 and std::uniform_int_distribution are modelled as giving any value of their range; how evenly is not decided. "
       "The generator is not cryptographically secure, as documented.")

P(id="E03", title="Versions, exclusive or, data file names and the small generator are exact",
  statement="VersionToInt gives major*10000 + minor*1000 + patch level for a text of the form digits.digit.three-digits whose "
            "value fits, major version of any size, and kInvalidVersion for every other text (too short, too few or too many "
            "parts, parts of another size, anything but digits, too large); it never throws. Exclusive or of two strings or "
            "byte vectors combines every byte and is refused with invalid_argument exactly if their sizes differ. The file "
            "name of a piece of data gives back its name and type, for every name and every type id, and different data have "
            "different file names. The small generator follows the reference sequence (Jenkins' small PRNG with rotations "
            "27 and 17, seeded 0xf1ea5eed, 20 rounds) for every state and seed.",
  over=["inputs"],
  quant="every character of every part of a version for the sizes of its parts, every byte of operands up to the length bound, "
        "every name of the lengths tried and type ids at the bounds of uint32_t, every state of the small generator (symbolic)",
  why="The tests try a few texts and one seed; one malformed text that is taken for a version, or one state that leaves the "
      "sequence, is not among them.",
  files=["src/maidsafe/common/utils.cc", "include/maidsafe/common/utils.h"],
  mech=[("parts checked one by one", "VersionToInt"), ("size check", "operator^"), ("separator", "GetFileName, GetDataNameAndTypeId")],
  observe=["results of VersionToInt, operator^, GetFileName, GetDataNameAndTypeId, small_prng::RandomValue"],
  technique="abstract interpretation of the syntax tree with symbolic bytes and 32-bit words against the definition evaluated beside it",
  note="File names that GetFileName does not give are not covered. stoi and to_string are modelled by their definition.")

P(id="E04", title="Texts are encrypted, compressed, hashed and split whole, and come back",
  statement="SymmEncrypt encrypts the whole text with AES-256-GCM under the first 32 bytes of the key and all 16 of the initial "
            "value, and SymmDecrypt with the same key gives it back; with another key, or a cipher text changed, shortened or "
            "not made with that key, it throws symmetric_decryption_error. Compress compresses the whole text at the level "
            "asked for, 0 to 9, refuses other levels with invalid_argument, and Uncompress gives the text back. Hash is the "
            "digest of all bytes, for SHA-1, 256, 384 and 512. CreateSecurePassword derives 48 bytes with PBKDF2 of all of "
            "password, salt and label, in 10000 + pin % 10000 iterations, for every pin. SecretShareData and InfoDisperse give "
            "as many pieces as asked for; any pieces, if they are as many as needed, give the text back; thresholds below 2 or "
            "above the number of pieces, fewer than 3 pieces, no pieces, and empty or too short ones are refused with "
            "invalid_argument. Uninitialised arguments are refused, and what Crypto++ throws becomes an error of the library.",
  over=["inputs"],
  quant="every byte of keys and texts up to the length bound, every change of a byte of the cipher text at the positions tried, "
        "levels and pins at the bounds of their types, every choice of three of four pieces in thorough runs",
  why="The tests encrypt a few random texts: a part of the key that is not used, an iteration count that wraps for some pins, "
      "pieces of one size that lose a byte, a change at one place that is not noticed, all pass them.",
  files=["src/maidsafe/common/crypto.cc", "include/maidsafe/common/crypto.h"],
  mech=[("authenticated filters", "SymmEncrypt, SymmDecrypt"), ("context of the derivation", "CreateSecurePassword"), ("room for padding", "SecretShareData, InfoDisperse")],
  observe=["results and errors of the functions of maidsafe::crypto"],
  technique="abstract interpretation of the syntax tree with Crypto++ as uninterpreted ideal functions (authenticated encryption, "
            "compression, digests, derivation, sharing) connected as the code connects its filters",
  note="That Crypto++ itself computes what it is named for is assumed, and that forging an authenticated cipher text does not "
       "succeed. Uncompressing what Compress did not make may give anything or fail with an error of the library. Information "
       "retrieval is covered with exactly as many pieces as needed.")

P(id="E05", title="Command lines, running processes and the program path match the system",
  statement="ConstructCommandLine gives the path of the program in quotes, once, a space, and the other arguments with one space "
            "between them, empty ones left out; no arguments give an empty line. IsRunning is false exactly if the system has no "
            "such process, true for a process of another user, and any other failure is invalid_argument. GetProcessId is the id "
            "of this process. The path of the executable is uninitialised (error) before it is set; then it is what the system "
            "gives if that could be read whole, for every length of it, and otherwise the first argument made absolute if "
            "possible; no failure and no length of the link leaves the buffer or leaves the path empty; later calls do not "
            "change it. ThisExecutableDir is its directory and GetOtherExecutablePath is beside it, with the same extension.",
  over=["inputs"],
  quant="every character of program paths and arguments up to the length bound, every error of kill, links of every length tried "
        "around the size of the buffer, the link unreadable, the current directory unknown",
  why="The tests run with one readable link of ordinary length and their own processes.",
  files=["src/maidsafe/common/process.cc", "src/maidsafe/common/config.cc", "include/maidsafe/common/process.h"],
  mech=[("length given by readlink", "SetThisExecutablePath"), ("errno of kill", "IsRunning"), ("quotes", "ConstructCommandLine")],
  observe=["results of ConstructCommandLine, IsRunning, GetProcessId, ThisExecutablePath, ThisExecutableDir, GetOtherExecutablePath"],
  technique="abstract interpretation of the syntax tree with kill, readlink and the current directory as model functions that may fail",
  note="Linux only: the code of the other platforms is not compiled here. An id that is used again between the question and the "
       "answer is outside the property.")

P(id="A04", title="DataBuffer changes only under its locks, keeps its accounts and never hangs",
  statement="A DataBuffer may be used from any threads at once: its indices, byte counts and limits are only read and changed under the "
            "lock of their store, the two locks are never taken in a way that can deadlock, and nothing waits for the background "
            "worker while holding a lock the worker needs. The bytes counted as used in memory change together with the index under "
            "one hold of its lock; a value stored on disk that is deleted, by key, by predicate or by popping, loses its file and "
            "gives back its bytes. Whoever waits, for space, for work or for a value, looks again after each wake-up at what it waits "
            "for and at whether the buffer has stopped; each change that can end a wait is notified to all who may wait for it, and "
            "a buffer that stops, by its destructor or by a failure, wakes everyone.",
  over=["schedules", "histories"],
  quant="any interleaving of Store, Get, Delete, changes of the limits, failures of the disk and destruction, from any number of threads, "
        "any values and limits",
  why="The data buffer tests are not part of the build here, run one or a few threads and can neither force the interleaving nor wait for "
      "ever to see a hang; a wake-up lost or an account out of step shows only under a particular schedule or much later.",
  files=["src/maidsafe/common/data_buffer.cc", "include/maidsafe/common/data_buffer.h"],
  mech=[("mutex, condition variable, index, current and max of each store", "MemoryStorage, DiskStorage"), ("stop flag", "running_"),
        ("background copying", "CopyQueueToDisk"), ("removal of files", "RemoveFile")],
  observe=["calls that return rather than hang", "files left in the buffer's directory", "how much fits before a store waits"],
  technique="lockset, lock-order, typestate and condition-variable protocol dataflow over the control-flow graph, with exception edges and "
            "locks followed through moves and returns",
  note="Every path of every member function and of the worker. Decides the protocol, not the values: which entry is popped or which bytes "
       "Get returns is not claimed, nor is the outcome of two simultaneous stores of the same key.")

P(id="A05", title="TCP connections frame, order and close on their strand, and outlive their work",
  statement="Once handed out, a tcp::Connection or Listener uses its socket, queue and buffers on its strand only, and everything it hands "
            "to asio owns the object, and refers to memory that lives, until it has run. Messages, none empty and none larger than the maximum, are "
            "sent whole, one at a time and in the order in which they were sent, each after its length in four bytes with the most significant first; "
            "none is left in the queue while nothing is being written. A length received is compared with the maximum before it is used; each "
            "message received is reported once, and then exactly one further read is started. Any failure, a length too large, or Close "
            "closes the socket and reports it at most once, and ends reading and writing. A listener that accepts goes on accepting "
            "until it is stopped.",
  over=["schedules", "histories", "inputs"],
  quant="any number of threads running the io_service, any calls of Send, Close and StopListening from any of them, any order of completions, "
        "failure of any operation, any length received",
  why="The tests have no test of the tcp directory at all; a handler that runs off the strand, an object that dies before its "
      "handler or a message left in the queue shows only under particular completions.",
  files=["src/maidsafe/common/tcp/connection.cc", "src/maidsafe/common/tcp/listener.cc", "include/maidsafe/common/tcp/connection.h",
         "include/maidsafe/common/tcp/listener.h"],
  mech=[("strand", "strand_"), ("queue of messages", "send_queue_, Send, DoSend"), ("reading", "ReadSize, ReadData"), ("closing once", "DoClose"),
        ("accepting", "HandleAccept")],
  observe=["messages reported", "bytes on the wire", "reports of closing"],
  technique="strand-confinement, ownership and typestate dataflow over every handler and the paths through it, with handlers followed to where "
            "they are handed over",
  note="Trusts asio: completions, strands, async_read and async_write transfer all or fail. What is called before the object is handed out "
       "(connecting, opening the acceptor) and questions about endpoints are outside the strand rule; the user's functors are opaque.")
