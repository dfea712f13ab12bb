ALL = "abstract interpretation of the SSA form, "
BASE = "Covers every statically reachable path of the named entry points of both modules, for all inputs, under the models listed in DESIGN.md; a sound-by-construction over-approximation is not claimed for code shapes the value domain cannot express. "

prop("C01", "Concurrent use of a cache is free of data races",
     "Whatever methods of one cache any number of goroutines call at the same time, no memory of the cache (its table, its order of use, the entries it holds) is written by one of them while another reads or writes it without synchronisation. No method hands out something through which a caller reaches that memory without synchronisation.",
     ["schedules", "histories"], "all interleavings of all method calls on one cache",
     "The tests use one cache from one goroutine (or a few fixed ones) and never run under a schedule chosen to collide; a race needs a specific interleaving.",
     CACHE, [("one mutex per cache taken by every method", "Set, Get, Del, Clean, Verify, Flush, Count, SetTTL")],
     ALL + "lockset analysis with access provenance",
     BASE + "Decides: each access to memory some method changes happens with the mutex of the same object held, in write mode for changes.")
prop("C02", "Concurrent use of a language table is free of data races",
     "Any number of goroutines may read, change, load and print one language table of version 2 at the same time: its entries, its name and its language are never accessed without synchronisation while somebody changes them. What is handed out to list the entries is a copy.",
     ["schedules", "histories"], "all interleavings of all method calls on one language table",
     "The tests call the table from one goroutine only.",
     ["v2/xlanguage.go"], [("mutex of the table", "every method of the table")],
     ALL + "lockset analysis with access provenance", BASE + "Version 1 of the table is documented as not thread safe and is not covered.")
prop("C03", "Concurrent use of the thread-safe dataset is free of data races",
     "Any number of goroutines may use one thread-safe dataset at the same time: the wrapped dataset is only read while no other goroutine changes it, and only one goroutine at a time changes it.",
     ["schedules", "histories"], "all interleavings of all method calls on one thread-safe dataset",
     "The tests call it from one goroutine only, so a missing or too weak lock has no effect.",
     ["v2/xdatasetts.go"], [("mutex around each delegation", "every method of the thread-safe dataset")],
     ALL + "lockset analysis, methods of the wrapped value classified as reads and writes", BASE)
prop("C04", "Concurrent use of the thread-safe collection is race free and atomic",
     "Any number of goroutines may use one thread-safe collection at the same time without data races. An operation takes effect as a whole: it never relies on a length or an element read before another goroutine could have changed the list.",
     ["schedules", "histories"], "all interleavings of all method calls on one thread-safe collection",
     "The tests call it from one goroutine only; a length checked outside the lock fails only under a precise interleaving.",
     ["v2/xdatasetcollectionts.go"], [("mutex around each operation, copies for long walks", "every method of the thread-safe collection")],
     ALL + "lockset analysis plus bounds in the critical section (state forgotten at each acquisition)", BASE)
prop("C05", "Locks are always released, never taken twice, never held over callbacks",
     "Each method that locks a shared object releases the lock exactly once on each way out, including a panic raised by code it does not control. No method takes a lock its own goroutine already holds, and the validity function supplied by the user of a cache is never called with the cache locked.",
     ["schedules", "inputs", "fault_sequences"], "all paths of all methods of the lock-owning types, including exits by panic",
     "The tests have no panicking dataset and no validator that uses the cache; a leaked lock only shows at the next call.",
     CACHE + ["v2/xlanguage.go", "v2/xdatasetts.go", "v2/xdatasetcollectionts.go"], [("lock followed by deferred release", "all lock-owning types")],
     ALL + "typestate of each mutex", BASE)
prop("C06", "A concurrent change of the cache is never undone by Get or Verify",
     "When Get or Verify finds an entry invalid, they remove that very entry only: a newer entry stored for the same key by another goroutine in the meantime stays. A Get that runs while another goroutine removes the key never leaves traces of the key in the cache.",
     ["schedules"], "all interleavings of Get or Verify with Set, Del, Clean and Flush",
     "Needs another goroutine between the reading and the removing part of one call; the tests have none.",
     CACHE, [("identity check under the write lock before removing or refreshing", "Get, Verify")],
     ALL + "with the protected state forgotten at each acquisition; each removal must be justified for the entry present at that moment",
     BASE)
prop("C07", "Get serves only entries that are still valid",
     "Get returns a stored value only if the entry's own time to live and the cache's expiration, when set, have not elapsed since it was stored and the validity function, when set, accepts it; otherwise it returns no value and true and the entry is gone. For a key that is not stored it returns no value and false. The time of storage is set by Set alone, and Set drops a previous time to live.",
     ["inputs", "histories", "configurations"], "all combinations of time to live, expiration and validator, all ages of the entry",
     "The tests wait for a few fixed durations and never combine time to live, expiration and validator.",
     CACHE, [("checks before serving", "Get"), ("creation of entries", "Set"), ("time to live", "SetTTL")],
     ALL + "conditions established on each path to each return are compared with the required ones (times in linear normal form)", BASE)
prop("C08", "The order of use of a cache lists exactly the stored keys",
     "After each operation on a cache (Set, Get, Del, Clean, Verify, Flush), the order by which it evicts contains each stored key exactly once and no other key.",
     ["histories", "inputs"], "all operations from any consistent state, all keys",
     "The tests look at counts and values, not at the order, and a stale or missing key only has an effect many operations later.",
     CACHE, [("each change of the table is followed by the same change of the order", "all operations of the cache")],
     ALL + "inductive invariant between table and order, tracked as pending differences along each path", BASE)
prop("C09", "A bounded cache never holds more entries than its maximum",
     "Whatever the maximum (any positive number) and whatever was stored before, after Set returns the cache holds at most that maximum of entries. A cache without maximum is never trimmed by Set.",
     ["histories", "configurations"], "all positive maxima, all prior contents",
     "The tests use maxima where a tenth of the entries is at least one.",
     CACHE, [("trimming at the end of Set", "Set")],
     ALL + "size bound at each exit of Set", BASE + "Sequential histories.")
prop("C10", "Room is made by removing the least recently used entries first",
     "Setting a key, or reading it successfully, makes it the most recently used one. When Clean or Set remove valid entries to make room, they remove the least recently used ones.",
     ["histories"], "all histories of Set and Get followed by an eviction",
     "The tests do not check which entries survive an eviction.",
     CACHE, [("move to the young end", "Set, Get"), ("removal from the old end", "Clean, Set")],
     ALL + "end of the order at which keys are added versus removed, on all paths", BASE)
prop("C11", "Clean and Verify report exactly what they removed",
     "The number returned by Clean and by Verify is the number of entries that call removed from the cache. Clean with percentage zero removes expired entries only, and Verify removes exactly the expired entries and those its validity function rejects.",
     ["histories", "inputs", "configurations"], "all contents, percentages, expirations and validators",
     "The tests check the count for a few fixed contents.",
     CACHE, [("counter next to each removal", "Clean, Verify")],
     ALL + "counting of removals (ghost counter) against the returned value, relations kept by loops", BASE + "Sequential histories.")
prop("C12", "Typed getters convert exactly as documented",
     "For each kind of stored value, the typed getters (integer, float, boolean, string, date) return the documented conversion, and say found exactly when there is one. With found false the value returned is the zero value.",
     ["inputs"], "all stored values of all kinds, for every getter",
     "The tests cover a few kinds per getter.",
     DS, [("switch on the kind of the stored value", "GetInt, GetFloat, GetBool, GetString, GetTime")],
     ALL + "outcome table per dynamic type compared with the documented one", BASE)
prop("C13", "Collections behave as sequences",
     "Push adds at the end, Unshift in front, Pop removes and returns the last, Shift removes and returns the first, Get reads by position, Count is the number of elements; everything else keeps its place, and reading changes nothing. On an empty collection, Pop, Shift and any position return nothing, and the thread-safe versions of dataset and collection give the results of the wrapped ones.",
     ["inputs", "histories"], "all lengths, positions and elements",
     "The tests exercise a few small collections; boundary positions and the empty collection are not covered for each type.",
     COL + ["v2/xdatasetts.go"], [("slice operations", "Push, Pop, Shift, Unshift, Get, Count")],
     ALL + "abstract sequence effect of each operation compared with its specification", BASE)
prop("C14", "Path lookup finds exactly what the path designates",
     "Get on a key with separators descends one level per step: by name through datasets and by position through collections, and says found exactly when each step exists. A key without separator is looked up as it is.",
     ["inputs"], "all keys, all nestings",
     "The tests use a few fixed paths.",
     DS, [("descent on the first separator", "Get")],
     ALL + "outcome table of Get compared with its specification", BASE)
prop("C15", "A clone is complete and independent",
     "Clone of a dataset, a collection, a thread-safe version of them or a template returns a new object with the same content, nested datasets, collections and sub-templates cloned as well. The original is not changed, and a later change of one is never visible in the other.",
     ["inputs", "histories"], "all contents and nestings, all later changes",
     "The tests clone a small dataset and look at a few values.",
     DS + COL + TPL + ["v2/xdatasetts.go"], [("recursive copy", "Clone")],
     ALL + "escape and alias analysis of the result", BASE)
prop("C16", "Executing a template changes neither the template nor the data",
     "Execute only reads: the template, its sub-templates, the language and all the data given to it are the same after as before, whatever tokens the template contains. Executing twice therefore gives the same text.",
     ["inputs", "histories"], "all templates and all data",
     "The tests execute each template once and do not look at the data afterwards.",
     TPL, [("read-only injector working on its own scope stack", "Execute")],
     ALL + "effect analysis: each write reachable from Execute must go to memory created by that execution", BASE)
prop("C17", "The scope stack of a template execution is balanced",
     "While a template is executed, each scope opened for a sub-template or an element of a loop is closed again before the next element or token, on every path. A token is therefore always resolved in the scope of the element it belongs to.",
     ["inputs"], "all templates and all data",
     "An unbalanced scope only shows in a template with later tokens that use the same names.",
     TPL, [("push and pop around each nested injection", "Execute")],
     ALL + "depth of the scope stack along each path and each loop iteration", BASE)
prop("C18", "Every kind of template token is recognised and injected by its own rule",
     "Each token form of the template language is recognised as its own kind and nothing else, its name is taken from that token, and all text between tokens is kept. Executing a template with some data gives the texts of all its tokens in order, each token by its own rule, with the language found in the data.",
     ["inputs", "programs"], "all token forms of the language",
     "The tests contain the common tokens only.",
     TPL, [("pattern and its groups", "LoadString"), ("kinds", "LoadString and Execute")],
     "syntax analysis of the constant pattern (groups and literals) against the data flow of the compiler and the execution", BASE)
prop("C19", "A failed load is reported and leaves the object unchanged",
     "When a file cannot be opened, read or parsed, the loading function returns the error and no object or the object as it was before. It never reports success for partial data.",
     ["fault_sequences", "inputs"], "all failures of opening, reading, scanning and parsing at any point",
     "The tests have a missing file at most; read and parse errors in the middle are not provoked.",
     LANG + TPL, [("error returned from each step", "LoadFile, LoadString, LoadXMLFile, LoadXMLString, constructors")],
     ALL + "error flow: each failing step must reach the result, and no write may precede it", BASE)
prop("C20", "Every opened file is closed on every path",
     "Each file opened by a loading function is closed on every way out of it, also when reading or parsing fails.",
     ["fault_sequences"], "all failures at any point after the opening",
     "A leaked descriptor has no visible effect in a test.",
     LANG + TPL, [("deferred close", "LoadFile, LoadXMLFile")],
     ALL + "typestate of each file", BASE)
prop("C21", "Data access never panics on unusual data",
     "No method of datasets, collections, their thread-safe versions, language tables and caches panics because of the data: missing keys, nil values, values of any type, empty collections, positions out of range, empty paths.",
     ["inputs"], "all keys, positions and stored values",
     "The tests use well-formed data.",
     DS + COL + LANG + CACHE + ["v2/xdatasetts.go"], [("checked assertions, bounds and nil tests", "all getters and list operations")],
     ALL + "each assertion, index, slice and dereference must be guarded", BASE)
prop("C22", "Compiling and executing a template never panics",
     "Whatever the text given to compile and whatever the data given to execute (missing fields, nil data, values of any type, unbalanced or unknown tokens, missing sub-templates), compiling returns a template or an error and executing returns a text instead of panicking. A template that includes itself without end is outside of this guarantee.",
     ["inputs", "programs"], "all template texts and all data",
     "The tests use well-formed templates and matching data.",
     TPL, [("guards in compiler and injector", "LoadString, Execute, String")],
     ALL + "each assertion, index, slice and dereference must be guarded", BASE)
prop("C23", "Printing is deterministic",
     "Printing the same dataset, collection, language table or template twice gives the same text: nothing printed depends on the random iteration order of tables.",
     ["inputs", "schedules"], "all contents, all iteration orders",
     "Tables of one entry, or a lucky order, hide it.",
     DS + COL + LANG + TPL, [("sorted keys", "String, GoString, GetXML")],
     ALL + "order taint: sequences filled in table iteration order must be sorted before they are printed", BASE)
prop("C24", "A language table printed as XML can be read back",
     "The XML text of a language table (version 2) is well-formed whatever the table holds, and contains its name, its language and each entry with its status and text, escaped, in the elements and attributes of the documented format and no other text. Reading such a text gives the table the same name and language and, for each entry element, the same text (and status) under the same id.",
     ["inputs"], "all names, languages, keys and texts",
     "The tests have no text with markup characters.",
     ["v2/xlanguage.go", "xlanguage.go"], [("escaping of each value", "GetXML"), ("vocabulary", "GetXML and LoadXMLString")],
     "grammar-directed analysis of the text computed by abstract interpretation of the SSA form, with the values in it unknown; mapping of structure tags to stores for the reader", BASE)
prop("C25", "Internal containers are not handed out",
     "No method of a cache, a language table or a thread-safe type returns its own container, so that a caller cannot change it behind its back; what is returned to list the content is a new container.",
     ["histories"], "all callers",
     "A test would have to change what was returned and look again.",
     CACHE + LANG + ["v2/xdatasetts.go", "v2/xdatasetcollectionts.go"], [("copies", "listing methods")],
     ALL + "escape analysis of results", BASE)
prop("C26", "Logging does not change behaviour",
     "Switching the log of the package on or off changes nothing but what is logged: results, stored data and effects of every call are the same.",
     ["configurations"], "all entry points, both settings",
     "The tests run with one setting.",
     ["xcache.go", "v2/xcache.go", "v2/xcore.go", "xcore.go"], [("log statements guarded by the switch", "everywhere")],
     "control dependence: instructions that depend on the switch must only log", BASE)
prop("C27", "Loops choose the most specific sub-template of each element",
     "For each element of a loop, in order, the sub-template is chosen by its position (key) first, then as first element, as last element, as even position, and then the base one, and it is executed with the element as innermost scope (in version 2 with its counter, from 1). An empty or missing collection gives the sub-template for no elements, or the base one if there is none.",
     ["inputs"], "all collections, all sets of sub-templates present",
     "The tests cover a few combinations.",
     TPL, [("cascade of sub-template lookups", "Execute")],
     ALL + "order in which candidate sub-templates are tried on each path", BASE)
prop("C28", "Names are resolved in the innermost scope first",
     "A name used in a template is looked up in the innermost data that has it, going outwards; a missing name is reported as missing. A sub-template is looked up in the template itself and, in version 2, then in those that contain it; a sub-template added under a name is found under that name.",
     ["inputs"], "all nestings of data and templates",
     "The tests have no name present at several levels.",
     TPL + COL, [("search from the last scope to the first", "GetData"), ("own sub-templates before the enclosing ones", "GetTemplate")],
     ALL + "direction of the search and result at the first hit", BASE)

prop("C29", "A reference inserts the right sub-template with the right data",
     "A reference token inserts the sub-template of its name and nothing if there is none; with a field name, that dataset is the innermost scope while the sub-template is executed, and only then. With a field and a prefix, the sub-template named by the prefix followed by the value of the field is inserted, or the one named by the prefix if there is none for the value.",
     ["inputs", "programs"], "all reference tokens, all data, all sets of sub-templates present",
     "The tests have a few references with matching data; absent fields, values and sub-templates are not combined.",
     TPL, [("reference rule of the injector", "Execute")],
     ALL + "text of each path compared with the rule of the token", BASE)
prop("C30", "A condition inserts the sub-template that belongs to the value",
     "For a condition token whose field has a value that is not empty, the sub-template for that very value is inserted if there is one and otherwise the general one; a field that is missing or empty gives the one for no value. In version 2 a field that is itself a dataset selects the sub-template for an array and becomes the innermost scope while it is executed.",
     ["inputs", "programs"], "all condition tokens, all values, all sets of sub-templates present",
     "The tests cover a few combinations of value and sub-templates.",
     TPL, [("condition rule of the injector", "Execute")],
     ALL + "text of each path compared with the rule of the token", BASE + "Not specified (documentation and code leave it open): what is inserted for no value when there is no sub-template for it, and dataset values in version 1. ")
prop("C31", "A language table holds what was set and loaded",
     "Reading an entry of a language table gives the text last set or loaded under that name, and the empty text if there is none or it was deleted; name, language and (version 2) status behave likewise, and changing one entry leaves all others as they are. The flat text format is read line by line: the name is what precedes the first equal sign and the text what follows it, both without surrounding spaces. Lines that are empty, begin with # or ;, or have no equal sign or no name are ignored.",
     ["inputs", "histories"], "all sequences of calls on a language table and all texts loaded",
     "The tests load a few well-formed lines; equal signs in the text, comment marks, empty names and repeated names are not combined.",
     LANG, [("table behind each accessor", "Set, Get, Del, SetStatus, GetStatus, GetEntries"), ("line rule of the flat format", "LoadString")],
     ALL + "table before and after each method compared; condition and stored pair of each path of an iteration over the lines", BASE + "Whether loading keeps entries that the loaded text does not mention is left open (documentation and code differ). ")

prop("C32", "Nested template definitions give the tree they describe",
     "A template text with nested definitions gives the tree of sub-templates it describes: each definition is found in the one that directly contains it, under each of the names separated by a bar, with exactly the tokens between its beginning and its end that belong to no inner definition, in order. The tokens outside of all definitions make the loaded template. A text whose beginnings and ends do not match is refused with an error.",
     ["inputs", "programs"], "all template texts, any depth and number of nested definitions",
     "The tests nest two levels with fixed names; siblings after inner definitions, several names and deep nesting are not combined.",
     TPL, [("stack of open definitions over the list of tokens", "LoadString")],
     ALL + "generic iteration of the loop over the tokens: what a beginning, an end and any other token do to the open definitions and to the list of tokens", BASE + "Other ways of cutting a list of names than the recognised ones are noted in the evidence and not judged. ")

prop("C33", "Printed forms list the whole content",
     "The text printed for a dataset, a collection, a language table or a template, in its plain and in its Go form, lists every entry exactly once and nothing else: each key with its value, for a collection each element with its position in order, for a template each of its tokens.",
     ["inputs"], "all contents, of any size",
     "The tests print objects of one or two entries.",
     DS + COL + LANG + TPL, [("one item per entry", "String, GoString")],
     ALL + "the printed text as an image of the table or list, one item per entry", BASE + "The punctuation between the items is not specified. ")

prop("C34", "A dataset holds exactly what was stored in it",
     "Setting a key of a dataset makes it hold that value under that key, deleting it removes it, all other entries stay as they are, and reading changes nothing. A dataset or collection built from standard maps and lists (version 2) holds every entry and element of them, lists in order: maps become datasets, lists of maps become collections, and any other value is kept as it is. Wrapping a dataset for concurrent use keeps that very dataset.",
     ["inputs", "histories"], "all datasets, keys and values, all maps and lists of any size and depth given to the constructors",
     "The tests store a few keys of few types and read them back; they do not look at the other entries.",
     DS + COL, [("table before and after", "Set, Del"), ("image of the given map or list", "NewXDataset, NewXDatasetCollection, NewXDatasetTS")],
     ALL + "table before and after each method compared; each constructor as an image of what it was given, with the type of the value deciding what it becomes", BASE + "Elements of a mixed list that are not maps are left open. ")

prop("C35", "Cache operations concern only their key and leave the settings alone",
     "A new cache is empty, has no validity function and has the name, maximum and expiration it was given, and no operation changes these. Deleting a key removes the entry of that key and no other, flushing removes all, and counting returns the number of entries stored. Storing, reading and setting a time to live change only the entry of their key, apart from making room.",
     ["inputs", "histories"], "all caches and keys, all states reached by earlier calls",
     "The tests look at the entry they touch, hardly ever at the others, and never at the settings after an operation.",
     CACHE, [("table and settings before and after each operation", "NewXCache, Set, SetTTL, Get, Del, Count, Flush, Clean, Verify")],
     ALL + "table and settings before and after each operation compared", BASE)

prop("C36", "A template is loaded from the whole text or file it is given",
     "A template made from or loaded with a text or a file is that of exactly this text, or of the whole unchanged content of that file. A constructor returns a new template with nothing else in it, and a new empty template is empty.",
     ["inputs"], "all texts and files",
     "The tests load a few small files and texts.",
     TPL, [("what is handed to the reader of the text", "LoadFile, NewXTemplateFromFile, NewXTemplateFromString"), ("new template", "NewXTemplate")],
     ALL + "flow of the text or file content into the one call of the text reader on each successful path", BASE)

prop("C37", "Clean removes the percentage asked for",
     "When no entry is expired, Clean with a percentage between 0 and 100 removes that percentage of the stored entries, rounded down to a whole number: none for 0, all for 100.",
     ["inputs", "histories"], "all numbers of entries and all percentages from 0 to 100",
     "The tests clean a handful of entries with one or two round percentages.",
     CACHE, [("number removed", "Clean")],
     ALL + "linear relation between the counter of effective removals and the size of the table, through loops", BASE + " With expired entries, the number the percentage is taken of is left open; so is what Set removes to make room.")

prop("C38", "Concurrent changes of shared objects are not lost",
     "When several goroutines use one cache, one language table of version 2, or one thread-safe dataset or collection at the same time, no change made by one of them is lost: nothing is written back that was read before another goroutine could have changed it. An operation that changes the object returns nothing read before that, and no operation fails because what it has looked up was removed in the meantime.",
     ["schedules", "histories"], "all interleavings of any number of goroutines calling any methods of the object",
     "The tests use the objects from one goroutine; a lost update needs another goroutine to run between two critical sections of one call.",
     CACHE + ["v2/xlanguage.go", "v2/xdatasetts.go", "v2/xdatasetcollectionts.go"], [("operations that change the object", "methods of the four types")],
     ALL + "concurrent interpretation: everything a lock protects is forgotten at each acquisition; values written and returned are dated by the critical section they were read in", BASE + " Values that do not come from the guarded memory (arguments, constants, time) are not dated. What readers return may be older than the return, as documented.")

BUILT = {"C%02d" % i for i in range(1, 39)}
