"""Writes properties.jsonl (kept as a script so that the text can be edited)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


D = "UnicodeData/"
NOFILE = "icudata.dat is not in the repository, so the tests of names, layout properties and normalisation do not even run; "

prop("C01", "Concurrent first use of the data-file services sees complete data",
     "However many threads first import or first use the character names, layout properties, compatibility normalisation and data-file access of the package at the same time, in whatever order they are scheduled, every thread's import succeeds and every answer it gets is the one the data file holds. No thread observes data that is partly loaded, no call blocks forever, and every thread makes progress within a bounded number of steps.",
     ["schedules", "configurations"],
     "every interleaving, at line and call granularity and at every I/O and lock operation, of 2-4 threads that import and call any of the data-backed modules for the first time, for any valid data file",
     NOFILE + "and they are single-threaded; the window between publishing the file contents and publishing the table of contents is a few lines wide.",
     [D + "ICUDataFile.py", D + "CharNames.py", D + "LayoutProps.py", D + "Normalizer2.py"],
     [("the data file is loaded and published once per process", D + "ICUDataFile.py ICUData._populateData"),
      ("name tables are built at import", D + "CharNames.py CharNames.populateData"),
      ("tries are built at import", D + "LayoutProps.py module body; " + D + "Normalizer2.py module body")],
     [("ICUData class attributes", "whole file contents and name -> offset table", D + "ICUDataFile.py")],
     ["result or exception of every import and call made by each thread"])

prop("C02", "A failed load of the data file is reported and leaves nothing behind",
     "If reading the data file or its table of contents fails - missing or unreadable file, an I/O error part way, a file cut short or damaged so that its contents table cannot be read - the first use raises an exception. Nothing of the failed attempt stays behind: once the file is readable again, the next first use in the same process succeeds and every answer comes from the file as it is then, in any sequence of failures and replacements of the file.",
     ["fault_sequences", "histories"],
     "every sequence of failed and successful attempts, every point of the load at which it fails (open, each read, parsing), every replacement of the file between attempts",
     NOFILE + "and nothing injects I/O errors or retries after a failed import.",
     [D + "ICUDataFile.py", D + "CharNames.py", D + "LayoutProps.py", D + "Normalizer2.py"],
     [("contents are published only after the table of contents was parsed", D + "ICUDataFile.py ICUData._populateData")],
     [("ICUData class attributes", "whole file contents and name -> offset table; empty means not loaded", D + "ICUDataFile.py")],
     ["exception or value of every attempt; files left open"])

prop("C03", "A truncated or short-read data file never produces wrong answers",
     "If the data file ends at any byte before its end, or the operating system returns its bytes in pieces of any size, then every name, layout value, decomposition or raw slice the package returns equals the one in the complete file, or the import or call raises an exception. A cut-off file is never read as shorter names, missing names or different values.",
     ["crash_points", "fault_sequences", "inputs"],
     "every truncation point of every valid data file (a download or install cut short) and every pattern of short reads",
     NOFILE + "and no test presents a damaged file; slicing past the end of a bytes object silently returns less.",
     [D + "ICUDataFile.py", D + "CharNames.py", D + "LayoutProps.py", D + "Normalizer2.py", D + "CPTrie.py"],
     [("slices of the file are checked against its length", D + "ICUDataFile.py ICUData.getData"),
      ("fixed-size structures are unpacked with exact sizes", D + "CPTrie.py CPTrie.createFromData; " + D + "Normalizer2.py; " + D + "LayoutProps.py")],
     None, ["every name, trie value, decomposition and slice returned after an import that succeeded"])

prop("C04", "Character name lookup, iteration and reverse lookup always agree",
     "For the Unicode-name and alias choices, iterating the names yields exactly the code points that have a name, once each in increasing order, with the name that looking the code point up returns, and looking that name up in reverse returns the code point (the first one, if shared) or 0xFFFFFFFF when no character has it. The extended choice returns the Unicode name wherever there is one. This holds for any number of iterators that are advanced alternately, abandoned half way or restarted, mixed with lookups from any thread and with the name data being loaded again.",
     ["schedules", "histories", "inputs"],
     "every interleaving of iterators, lookups, reverse lookups and re-initialisation over every valid names table (literal, single- and double-byte tokens, sparse groups, prefix and factorised algorithmic ranges)",
     NOFILE + "and the tests look up about fifty fixed names, one at a time, in a fresh process.",
     [D + "CharNames.py"],
     [("token expansion", D + "CharNames.py Tokens.expandString"), ("group lengths and strings", D + "CharNames.py Group"),
      ("algorithmic names", D + "CharNames.py AlgorithmicRange"), ("iteration over groups and ranges", D + "CharNames.py CharNames.nameIterator"),
      ("binary search for the group", D + "CharNames.py CharNames.getGroup"), ("reloading replaces the tables", D + "CharNames.py CharNames.populateData")],
     [("CharNames class attributes", "name groups and algorithmic ranges", D + "CharNames.py")],
     ["pairs yielded by each iterator, results of getCharName and charFromName"])

prop("C05", "Values served from the data file are the values stored in it",
     "For every valid data file, every layout-property lookup and every compatibility (and case-folding) decomposition, full and raw, of every code point including surrogates and U+10FFFF equals what the file stores for it. The answer does not depend on where in the file the tables lie, on the table format and width chosen, on the order in which modules were loaded, on how the file was read, or on which other lookups ran before or at the same time.",
     ["schedules", "configurations", "inputs", "histories"],
     "every valid package layout, trie type (fast, small), value width (8, 16, 32 bits) and index form (16- and 18-bit), load order, benign short-read pattern and interleaving of lookups",
     NOFILE + "so no test covers file-backed tries or the compatibility normalisers at all here.",
     [D + "ICUDataFile.py", D + "CPTrie.py", D + "LayoutProps.py", D + "Normalizer2.py"],
     [("package table of contents", D + "ICUDataFile.py ICUData"), ("trie deserialisation and lookup", D + "CPTrie.py CPTrie.createFromData, CPTrie.get"),
      ("decomposition from norm16 and extra data", D + "Normalizer2.py Normalizer2")],
     None, ["getInPC, getInSC, getVO, getDecomposition, getRawDecomposition, trie lookups"])

prop("C06", "Range enumeration is an exact, maximal cover that agrees with lookup",
     "Enumerating any code point trie from any start to any limit yields non-empty ranges in increasing order that cover exactly the requested span, each with the value (or mapped value) that point lookup gives every code point in it, and with different values in neighbouring ranges. This holds for each of any number of enumerations that are advanced alternately by any threads, re-entered from their own value callback, or abandoned, whatever enumerations ran before, and an exception raised by the callback reaches the consumer and affects no other enumeration.",
     ["schedules", "histories", "inputs", "fault_sequences"],
     "every trie (the built-in properties, case, bidi and normalisation tries and any valid trie), every span, every interleaving of suspended enumerations and lookups, every callback failure point",
     "the tests enumerate eight fixed, mostly block-aligned spans to the end one at a time and check only start, end and values of three tries.",
     [D + "Utrie2.py", D + "CPTrie.py"],
     [("UTrie2 enumeration", D + "Utrie2.py UTrie2.enumerator"), ("UCPTrie enumeration", D + "CPTrie.py CPTrie.enumerator"),
      ("lookups", D + "Utrie2.py UTrie2.get; " + D + "CPTrie.py CPTrie.get")],
     [("suspended generator", "position, previous block and pending range of each enumeration", D + "Utrie2.py, " + D + "CPTrie.py")],
     ["ranges and values each consumer receives"])

prop("C07", "Any history of set operations behaves as the mathematical set",
     "After any sequence of operations on any number of UnicodeSets - element, range and whole-set updates, operators, copies, complements, clears, with sets used as their own operand and ranges that stick out of U+0000..U+10FFFF clipped to it - membership, size, ranges, indexing, iteration and equality are those of the mathematical set of code points. Ranges are reported sorted, disjoint and never adjacent; updates return the set itself, operators return a new set, and no operation changes its operand.",
     ["histories", "inputs"],
     "every sequence of public operations on a pool of sets, including aliasing and code points at both ends of the code space",
     "the tests run each set-to-set operation once on sets of code points below 32 and a dozen fixed range edits; histories, aliasing and the ends of the code space are not reached.",
     [D + "UnicodeSet.py"],
     [("merge of two boundary lists", D + "UnicodeSet.py UnicodeSet._addList, _retainList, _exclusiveOrList"),
      ("single point and range insertion", D + "UnicodeSet.py UnicodeSet.add, addRange"), ("binary search", D + "UnicodeSet.py UnicodeSet._findCodePoint")],
     [("UnicodeSet.list", "sorted boundaries, alternately in and out, ending at 0x110000", D + "UnicodeSet.py")],
     ["contains, size, getRanges, getRangeStart/End, indexOf, charAt, iteration, ==, str of derived sets"])

prop("C08", "An interrupted or failing set operation leaves the set old or new",
     "If an update of a UnicodeSet does not complete - it is given an argument it rejects, or an exception such as KeyboardInterrupt or MemoryError strikes at any point inside it - the set afterwards equals either the set before the update or the completed result, is well formed and keeps working. The other sets involved are unchanged.",
     ["crash_points", "fault_sequences", "histories"],
     "every operation, every line inside it at which an asynchronous exception or allocation failure can strike, every rejected argument, then any further operations",
     "the tests never interrupt an operation or pass a bad argument.",
     [D + "UnicodeSet.py"],
     [("results are built aside and published in one step", D + "UnicodeSet.py UnicodeSet._addList, _retainList, _exclusiveOrList, add, addRange, complement, clear")],
     [("UnicodeSet.list", "sorted boundaries ending at 0x110000", D + "UnicodeSet.py")],
     ["the set and its operands through the public API after the failure, and after further operations"])

prop("C09", "Sets owned by different threads never affect each other",
     "Threads that read shared UnicodeSets, derive new sets from them by copying or with operators, and update only the sets they own always get the results a lone thread would get. A set never shares changeable state with the set it was copied or derived from, with an operand, or with the lists of ranges it handed out, and iterating a set that nobody changes is unaffected by any other activity.",
     ["schedules", "histories"],
     "every interleaving of 2-4 threads reading shared sets, deriving from them and mutating what they own, including suspended iterations and caller-side mutation of returned lists",
     "the tests are single-threaded and never update a derived set and then look at its source.",
     [D + "UnicodeSet.py"],
     [("copies of the boundary list", D + "UnicodeSet.py UnicodeSet.__init__, union, intersection, difference, symmetric_difference"),
      ("fresh buffers in list merges", D + "UnicodeSet.py UnicodeSet._addList, _retainList, _exclusiveOrList")],
     [("UnicodeSet.list", "sorted boundaries ending at 0x110000", D + "UnicodeSet.py")],
     ["every result in every thread; shared sets afterwards"])

prop("C10", "Property lookups depend only on the code point",
     "Every character-property, bidi, case-mapping and built-in normalisation lookup returns for a code point what the same call returns when it is the first call of a fresh process. It does so after any history of other lookups, from any number of threads in any interleaving, after lookups that raised or were interrupted, and after callers changed the lists earlier lookups handed out.",
     ["schedules", "histories", "fault_sequences"],
     "every history and interleaving of lookups over all code points, with interrupted lookups and mutated results; the reference for each call is the same call alone in a fresh process",
     "each test asserts fixed values in a fixed order in one thread; caches, shared scratch state and aliased results only show in long or concurrent histories.",
     [D + "CharProps.py", D + "BidiProps.py", D + "CaseProps.py", D + "Utrie2.py", D + "CPTrie.py", D + "Normalizer2.py", D + "Utilities.py"],
     [("lookups read immutable module tables", D + "CharProps.py, " + D + "BidiProps.py, " + D + "CaseProps.py"),
      ("built-in normalisation data", D + "Normalizer2.py Normalizer2.createFromHardCodedData"), ("trie lookups", D + "Utrie2.py UTrie2.get; " + D + "CPTrie.py CPTrie.get")],
     [("module-level tables", "generated property tables, read only by intent", D + "*PropsData.py, Norm2NFCData.py")],
     ["result or exception type of every call"])

prop("C11", "The module builder reports success only with complete, correct output",
     "If the module builder returns without an exception, every output file exists, is complete and holds exactly the values of the ICU sources it was built from - arrays, trie constants, header constants, type dictionaries, versions and a byte-identical data file and licence. If any read, write, close or copy fails or the disk fills up at any point, the failure is reported as an exception instead, and the ICU sources are never modified.",
     ["fault_sequences", "crash_points", "configurations"],
     "every disk-fault point and kind (missing or unreadable source, I/O error, full disk, short writes, failing close or copy) over any well-formed ICU source tree",
     "no test runs the builder.",
     ["module_builder/ModuleBuilder.py", "module_builder/HeaderToPtyhon.py", "module_builder/UCDReader.py"],
     [("source declarations to Python", "module_builder/ModuleBuilder.py ModuleBuilder"), ("header translation", "module_builder/HeaderToPtyhon.py HeaderFile"),
      ("property value dictionaries", "module_builder/UCDReader.py UCDReader"), ("files are closed before success is reported", "writeFile methods; build()")],
     None, ["exception or return of build(); files of the output directory, executed and compared with the source model; the source tree"])

prop("C12", "Rebuilding after a crash converges, independent of clock and environment",
     "Wherever a build was killed or failed, running the builder again to completion in the same output directory gives the same files as one undisturbed build, with nothing left over from the failed run changing them. Apart from the generation timestamp in the header comment the output depends only on the ICU sources - not on the clock, time zone, locale, earlier output or the order in which the operating system does things.",
     ["crash_points", "fault_sequences", "configurations"],
     "every crash or fault point of one or more builds, every clock value, jump and time zone, every earlier content of the output directory, followed by a clean build",
     "no test runs the builder, let alone twice.",
     ["module_builder/ModuleBuilder.py", "module_builder/HeaderToPtyhon.py", "module_builder/UCDReader.py"],
     [("outputs are rewritten from scratch", "writeFile methods; build()"), ("output directory is created if needed", "module_builder/ModuleBuilder.py ModuleBuilder.__init__")],
     None, ["files of the output directory after the final build, without the timestamp line"])

prop("C13", "Installing generated files is all-or-nothing per file and repeatable",
     "If the installer is killed or fails at any point, every installed file is byte for byte either the one from before or the new one, never a mixture or a part of one. If it returns without an exception every generated module, the data file and the licence are byte-identical to their source; running it again after any failure completes the installation, and neither the sources nor any unrelated file of the package is changed. Installs that run at the same time, whichever of them are killed or fail, leave each file whole and as one of them has it, and do not make each other fail.",
     ["crash_points", "fault_sequences", "schedules"],
     "every point at which the process is killed and every disk fault (full disk, I/O error, short write, failing rename or open) in one or more installs, one after another or interleaved in any way, over any earlier state",
     "no test runs the installer.",
     ["module_builder/ModuleInstaller.py"],
     [("copy aside, then rename", "module_builder/ModuleInstaller.py installFile"), ("which files are installed", "module_builder/ModuleInstaller.py install")],
     None, ["contents of the package directory after each attempt"])

prop("C14", "Character data built from UCD XML is a right and independent snapshot",
     "Every field of the character data built from a UCD XML element and its group is what the element's own attribute says if it has that attribute (even an empty one) and what the group's says otherwise, with each '#' in the name replaced by the code point; without a readable code point or combining class there is an exception and no object. This holds whatever was built before, concurrently or only in part, whether the document is held as a tree or streamed with short or failing reads, and whichever elements and groups were changed or freed in between. Building does not change the elements or keep them alive, and an object stays as it is when they, or other objects, are changed, cleared or freed afterwards.",
     ["inputs", "schedules", "histories", "fault_sequences"],
     "every well-formed element and group, every order, interruption and interleaving of constructions, and every later change to elements, groups and objects",
     "no test builds character data without a download, and that one keeps the whole tree unchanged in memory in one thread.",
     [D + "CharacterData.py", D + "UCDProperties.py", D + "BidiProperties.py", D + "DecompProperties.py", D + "CaseProperties.py", D + "IndicProperties.py", D + "BinaryProperties.py"],
     [("element, else group", D + "UCDProperties.py UCDProperties.getCharProperty"), ("code point sequences", D + "UCDProperties.py getCodePointsProperty; DecompProperties.py dmToString"),
      ("references to the elements are dropped", "del self._char, self._group at the end of each constructor")],
     None, ["fields of the objects when built and at the end of the run; the attributes of the elements; weak references to dropped elements"])

prop("C15", "A process answers from one version of the data file",
     "However often and whenever the data file is replaced the way the installer does it - before, during and after the first uses of the package by any number of threads - every name, name list, layout value, decomposition, item offset and slice of item data that the process returns comes from one and the same version of the file, and that is a version which was installed while it was being read. Replacing, damaging or removing the file later changes no answer.",
     ["schedules", "histories", "fault_sequences"],
     "every number, order and timing of complete or interrupted installs relative to the imports and calls of any number of threads",
     "no test replaces the data file while the package is in use.",
     [D + "ICUDataFile.py", D + "CharNames.py", D + "LayoutProps.py", D + "Normalizer2.py", "module_builder/ModuleInstaller.py"],
     [("one read, one publication", D + "ICUDataFile.py ICUData._populateData"), ("replacement by rename", "module_builder/ModuleInstaller.py installFile"),
      ("tables are sliced once", D + "CharNames.py, " + D + "LayoutProps.py, " + D + "Normalizer2.py at import")],
     None, ["answers of all threads; contents of the data file over time"])

prop("C16", "After an update the package answers what the ICU sources say",
     "However often builds and installs were tried, failed or were killed before, once a build and then an install of its output have reported success, every process started afterwards answers every character, bidi, case and binary property question, the property value dictionaries, the Unicode version and every question about names, layout properties and decompositions as the ICU sources of that build define it, and never as an earlier version or a mixture of versions does. A build, successful or not, leaves the installed package as it was.",
     ["inputs", "histories", "crash_points", "fault_sequences"],
     "every set of tables in the format that ICU's generators write, every sequence of complete, failed and killed builds and installs of any versions, builds at least two seconds apart",
     "no test runs the builder or the installer, and the tests read only the one version of the tables that is checked in.",
     ["module_builder/ModuleBuilder.py", "module_builder/HeaderToPtyhon.py", "module_builder/UCDReader.py", "module_builder/ModuleInstaller.py", D + "CharProps.py", D + "BidiProps.py", D + "CaseProps.py", D + "Utrie2.py", D + "Normalizer2.py", D + "Norm2NFCData.py", D + "CPTrie.py"],
     [("which tables are written", "module_builder/ModuleBuilder.py build"), ("which files are installed", "module_builder/ModuleInstaller.py install"),
      ("how the tables are read", D + "CharProps.py, " + D + "BidiProps.py, " + D + "CaseProps.py, " + D + "Utrie2.py")],
     None, ["answers of fresh processes after each update; contents of the package after each build"])

prop("N01", "Property values are those of the Unicode version the package names",
     "For every code point, every character property the package reports (general category, script, block, age, numeric value, line break, East Asian width, bidi class and so on) is the value the Unicode Character Database assigns to it in the version the package states.",
     ["inputs"], "every code point and property", "the tests sample a few characters per property; the exhaustive test needs a download.",
     [D + "CharProps.py", D + "BidiProps.py"], [("generated tables", D + "CharPropsData.py, " + D + "BidiPropsData.py")])
prop("N02", "Case mappings are consistent with each other and with the standard",
     "For every code point the simple mapping is one code point, the full mapping equals the simple one unless the standard defines a special casing, and mappings are idempotent where the standard says so.",
     ["inputs"], "every code point", "the tests sample a few letters.", [D + "CaseProps.py"], [("exceptions and deltas", D + "CaseProps.py")])
prop("N03", "Bidi mirroring and paired brackets are involutions",
     "For every code point with a mirror image or a paired bracket, applying the lookup twice gives the code point back, and opening brackets pair with closing ones.",
     ["inputs"], "every code point", "the tests sample a few brackets.", [D + "BidiProps.py"], [("mirror table", D + "BidiProps.py getMirrorFromProps")])
prop("N04", "Canonical decompositions are fully decomposed and agree with the raw ones",
     "For every code point the full decomposition is what repeatedly applying raw decompositions (and canonical reordering) yields, and contains no character that decomposes further.",
     ["inputs"], "every code point", "the tests sample fourteen characters.", [D + "Normalizer2.py"], [("built-in NFC data", D + "Norm2NFCData.py")])
prop("N05", "C, POSIX and Java classification predicates follow their definitions",
     "For every code point, each classification predicate is the boolean combination of general categories and properties that its definition gives, and always returns True or False.",
     ["inputs"], "every code point", "the tests sample a few predicates.", [D + "CharProps.py"], [("predicates", D + "CharProps.py isalpha ... isJavaIDPart")])
prop("N06", "Surrogate, sign-extension and bit utilities are exact for every input",
     "Combining and splitting surrogates are inverse to each other for every supplementary code point, and arithmetic shift and highest-bit search are exact for every value of the documented width.",
     ["inputs"], "every argument", "the tests sample values.", [D + "Utilities.py"], [("utilities", D + "Utilities.py")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        n = p["statement"].count(". ") + 1
        assert n <= 3, (p["id"], n)
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
