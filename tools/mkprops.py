#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (which properties have a check in checks/ decides what is claimed)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=(), tech=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
        anchors={"files": ["src/" + f for f in files], "mechanism": [{"name": a, "where": "src/" + b} for a, b in mech],
                 "state": [{"name": a, "meaning": b, "where": "src/" + c} for a, b, c in state],
                 "observe_at": list(observe), "hook_needed": None}, tech=tech, note=note, na=na))

W = ["as_wrapper.cpp"]
prop("C01", "No C++ exception escapes the C interface or kills the process",
  "Whatever text is passed as address, grammar, lexicon, locale or filter, every function of the engine's C interface returns to its caller: no C++ exception leaves it, and none ends the process through std::terminate, abort or exit. The PostgreSQL backend and other C callers therefore survive any malformed input.",
  ["inputs", "fault_sequences"], "all inputs and all library failures (bad_alloc, regex too complex, archive errors)",
  "The tests call C++ classes directly with a few good inputs; none calls the C interface, none provokes an exception inside it.",
  ["as_wrapper.cpp", "address_standardizer.h"], [("catch-all handlers in every C entry", "as_wrapper.cpp:std_standardize, std_parse_address, std_match_address, getGrammarPtr, getLexiconPtr, freeGrammarPtr, freeLexiconPtr, getMd5, getGrammarMd5, getLexiconMd5, serialize_lexicon")],
  ["every extern \"C\" function of src/address_standardizer.h"], tech="whole-program may-unwind fixpoint on LLVM IR")
prop("C02", "Engine calls return either a result or an error message, never both or neither",
  "Every engine call that takes an error slot ends in exactly one of two ways: a result and a cleared error slot, or no result and a heap-allocated, non-empty message that carries the text of the failure. Standardizing alone has a third outcome, no result and a cleared slot, used exactly when the address does not match the grammar.",
  ["inputs", "fault_sequences"], "all inputs, all exceptions at every call site, allocation failure",
  "No test calls the C interface; error paths and their combination with result values are never run.",
  ["as_wrapper.cpp", "address_standardizer.h"], [("error slot protocol", "as_wrapper.cpp:standardize_addr, parse_addr, match_addr, std_*, getGrammarPtr, getLexiconPtr, serialize_lexicon")],
  ["return value and err_msg of the C interface"], [("err_msg", "NULL = success; malloc'ed text = failure", "as_wrapper.cpp")], tech="path-sensitive abstract interpretation with exceptional edges")
prop("C03", "The SQL functions survive engine failures and report a bad lexicon or grammar",
  "When the lexicon or grammar given to as_standardize or as_compile_lexicon is rejected, the SQL call raises an error that carries the engine's own message; when another engine call fails, the SQL call raises an error or returns an empty record or no rows. No SQL function ever dereferences an unset or null message or a result the engine did not deliver.",
  ["inputs", "fault_sequences"], "every outcome the engine may return to the PostgreSQL layer",
  "The PostgreSQL layer is not linked into any unit test; a failing load needs a running server.",
  ["address_standardizer.c", "std_pg_hash.c"], [("error reporting", "address_standardizer.c:as_compile_lexicon, as_standardize, as_parse, as_match"), ("cache fill", "std_pg_hash.c:CreateStd")],
  ["elog(ERROR, ...) calls", "result tuples"], tech="abstract interpretation of the C layer with every engine outcome enumerated (null-dereference and message provenance)")
prop("C04", "Every recognised part of an address is delivered in its documented field",
  "Each matched token contributes its standardized text to exactly the one output field documented for its output class (STOP, EXTRA and BADTOKEN to extra, both box classes to box, both unit classes to unit, IGNORE to none), in input order, separated by single blanks and without a trailing one. The SQL function returns each field, and the matched pattern, in the column of that name.",
  ["inputs"], "all token sequences and all output classes",
  "No test calls the standardizer end to end; the routing table has 21 classes, 17 fields and 17 columns, each with its own code.",
  ["as_wrapper.cpp", "address_standardizer.c", "outclass.h", "address_standardizer2--2.0.sql.in"],
  [("class switch and field copy", "as_wrapper.cpp:standardize_addr"), ("column copy", "address_standardizer.c:as_standardize")],
  ["STDADDR fields", "as_standardize result columns"], tech="provenance analysis: abstract execution of the entry once per output class")
prop("C05", "Class, language and attachment names and codes convert consistently both ways",
  "For every input class, output class, language and attachment code the system knows, converting it to its name and back yields the same code, no two codes share a name, and text that names no class is read as the bad-token class. A set of classes is written as the comma-separated list of its members and reading that list back yields the same set.",
  ["inputs"], "every enumerator of the four tables, every set of classes",
  "The tests compare a handful of names; most table rows are never touched.",
  ["inclass.cpp", "inclass.h", "outclass.cpp", "outclass.h"],
  [("conversion tables", "inclass.cpp:asString, asOneType, asType, asLang, asName, asAttachType"), ("output classes", "outclass.cpp:asString, asType, asNum")],
  ["results of the conversion functions"], tech="exhaustive constant propagation through the conversion functions, one run per enumerator")
prop("C06", "Compiled lexicons and archives lose nothing: everything saved is loaded back",
  "The compiled form of a lexicon stores every part of it that lookup, classification, tokenizing or standardizing uses (name, language, locale, entries with word, standard word, classes and attachment, the three word patterns, checksum), and reading the archive back fills exactly those parts in the same order and only after the version was accepted.",
  ["inputs", "histories"], "every lexicon value and every save/load pair",
  "No test compares a loaded lexicon with the saved one member by member.",
  ["lexicon.h", "lexentry.h", "as_wrapper.cpp"], [("archive members", "lexicon.h:Lexicon::save, Lexicon::load"), ("entry members", "lexentry.h:LexEntry::serialize"), ("patterns are computed before saving", "as_wrapper.cpp:serialize_lexicon")],
  ["serialize_lexicon output", "lexicon objects built from it"], tech="constant propagation of member values through the save and load instantiations on LLVM IR, the archive a list of values")
prop("C07", "Every entry refuses outdated compiled lexicons and reads plain ones as text",
  "Every entry that takes a lexicon accepts both compiled and plain-text form: text that is not a usable archive is parsed as plain text from its beginning. An archive written by an older version is never used and never parsed as text but reported with the message asking to re-compile the lexicon.",
  ["inputs", "histories"], "every lexicon text at each of the entries, every archive failure point",
  "No test loads a lexicon through the C interface; the fallback paths at the four sites are never run.",
  ["as_wrapper.cpp", "lexicon.h"], [("load with fallback", "as_wrapper.cpp:std_standardize, std_parse_address, std_match_address, getLexiconPtr"), ("version gate", "lexicon.h:Lexicon::load")],
  ["err_msg", "the lexicon used"], tech="abstract interpretation on LLVM IR with every archive failure forced at every entry; compile-time constant for the version")
prop("C08", "Word patterns always describe the current lexicon, prefixes and suffixes apart",
  "After any sequence of inserting and removing entries and asking for patterns, the whole-word, prefix and suffix patterns describe exactly the lexicon's current words, its entries marked as attached prefix and its entries marked as attached suffix respectively. No stale pattern survives a change of the lexicon.",
  ["histories"], "all interleavings of insert, remove, load and pattern queries",
  "Tests query each pattern once after loading; cache invalidation after later changes is never observed.",
  ["lexicon.cpp", "lexentry.cpp"], [("cache invalidation", "lexicon.cpp:Lexicon::insert, Lexicon::remove"), ("pattern construction", "lexicon.cpp:Lexicon::regex, regexPrefixAtt, regexSuffixAtt"), ("attachment tests", "lexentry.cpp:isPrefixAttached, isSuffixAttached")],
  ["tokenizer regular expressions"], [("regex_, regexPrefix_, regexSuffix_", "cached patterns, empty = recompute", "lexicon.h")], tech="constant propagation of load/insert/remove/query histories through the lexicon and trie on LLVM IR; the language of each pattern is enumerated and compared with the current words")
prop("C09", "Lexicon words match literally: no character of a word acts as a regex operator",
  "Every character of a lexicon word that has a meaning in a regular expression is quoted when the word patterns are built, and no other text of the word is changed, so that a lexicon entry matches its own text and nothing else.",
  ["inputs"], "every character in every word",
  "The test lexicons contain few special characters; a missing quote only shows with the one word that uses it.",
  ["trieutf8.cpp", "trie.cpp"], [("quoting", "trieutf8.cpp:quoteChar; trie.cpp:quoteChar")],
  ["generated pattern text"], tech="constant propagation of word sets around every printable character through the tries on LLVM IR; the language of the generated pattern is enumerated")
prop("C10", "Lexicon words and addresses are normalised and upper-cased the same way",
  "Every address is Unicode-normalised and upper-cased with the caller's locale, and again with the lexicon's, before it is tokenized; every lexicon line is normalised and, when the lexicon has a locale, upper-cased with it before it is stored. No entry path skips one of these steps.",
  ["inputs"], "every entry point and every path to the tokenizer or the lexicon map",
  "Tests use upper-case ASCII almost everywhere, so a skipped step on one path is invisible.",
  ["as_wrapper.cpp", "tokenizer.cpp", "lexicon.cpp", "utils.cpp"], [("address side", "as_wrapper.cpp:standardize_addr, parse_addr, match_addr; tokenizer.cpp:getTokens"), ("lexicon side", "lexicon.cpp:initialize")],
  ["tokens", "lexicon entries"], tech="constant propagation from every entry to the tokenizer and from every lexicon line to the entries, the Unicode services being given functions")
prop("C11", "Filtered classes never reach the parser's output",
  "No token that belongs to a class named in the caller's filter is returned by the tokenizer, in the primary or in any alternate tokenization, and every token that belongs to none of them is kept in order. The filter used is the one the caller passed.",
  ["inputs"], "every token of every primary and alternate phrase, every filter",
  "The filter tests look at the primary phrase of a few addresses only.",
  ["tokenizer.cpp", "token.cpp", "as_wrapper.cpp"], [("filter", "tokenizer.cpp:applyFilter, getTokens, getAltTokens"), ("filter installation", "as_wrapper.cpp:standardize_addr, parse_addr, match_addr")],
  ["returned phrases"], tech="constant propagation of addresses under every filter through tokenizer and entry on LLVM IR, compared with the unfiltered result")
prop("C12", "The query cache only ever returns the standardizer built from the given texts",
  "For every sequence of calls in a query, the cached standardizer handed out was built from a lexicon and a grammar with the same checksums as the texts of this call; otherwise a new one is built from these texts and stored with their checksums. A slot that is reused is emptied first, and a failed load leaves the cache as it was.",
  ["histories", "inputs"], "all call sequences of any length over any lexicon/grammar texts, including failures",
  "The cache lives in the PostgreSQL layer, which no unit test links.",
  ["std_pg_hash.c"], [("lookup", "std_pg_hash.c:IsInStdPortalCache, GetStdFromPortalCache"), ("fill and evict", "std_pg_hash.c:AddToStdPortalCache, DeleteNextSlotFromStdCache"), ("per-query cache", "std_pg_hash.c:GetStdPortalCache, GetStdUsingFCInfo")],
  ["pointer returned by GetStdUsingFCInfo"], [("StdCache[4], NextSlot", "ring of (lexicon md5, grammar md5, standardizer, memory context)", "std_pg_hash.c")], tech="abstract interpretation over a symbolic cache state (all slot contents), inductive invariant on slots")
prop("C13", "Native memory is freed exactly once and never used after being freed",
  "Memory obtained from the C allocator, lexicon and grammar objects included, is released exactly once, never used afterwards, and not lost on any path that returns or raises an error, in the engine's interface and in the SQL layer. Record fields are freed with their record.",
  ["inputs", "fault_sequences"], "all paths including every failing call",
  "Leaks and double frees on error paths do not fail a unit test, and the SQL layer is not linked into any.",
  ["as_wrapper.cpp", "address_standardizer.c", "std_pg_hash.c"], [("release functions", "address_standardizer.c:stdaddr_free, tokens_free; std_pg_hash.c:std_free"), ("ownership hand-over", "as_wrapper.cpp:getLexiconPtr, getGrammarPtr")],
  ["free/delete calls"], tech="ownership typestate analysis over all paths")
prop("C14", "The grammar search is bounded and reports only complete derivations",
  "For every grammar, recursive ones included, the nesting depth of the search is limited by a bound fixed from the phrase length, so the search always returns. Every reported match applies rules whose input classes, put together in order, are exactly the classes chosen for the tokens of the phrase, with no token left over, skipped or used twice.",
  ["inputs", "programs"], "all grammars and all phrases",
  "Tests run three small acyclic grammars; recursion and partial matches are not asserted.",
  ["search.cpp", "search.h"], [("depth limit", "search.cpp:match, matchNext"), ("complete matches only", "search.cpp:search"), ("rule application", "search.cpp:matchRule")],
  ["search results"], [("recursion_limit_", "phrase length + 2", "search.h")], tech="abstract interpretation of the search over known grammars and phrases with unknown texts on LLVM IR; recursion depth bound; results compared with derivations of an independent reading")
prop("C15", "The best match is the highest-scoring one and its parts belong together",
  "The tokens, pattern text, score and rule count reported as best come from one and the same match, the one whose average rule score is the highest over all matches of all phrases. When nothing matches a negative score is reported, and a negative score never comes with a standardized result.",
  ["inputs"], "all result lists and all orders of results",
  "Tests compare a few best scores; mixed-up parts need a particular order of better and worse matches.",
  ["search.cpp"], [("selection loops", "search.cpp:searchAndReclassBest (both forms)")],
  ["score, matched, nrules, tokens"], tech="abstract interpretation of the best-match search over known grammars and phrases with unknown texts on LLVM IR; parts compared with one derivation of maximal average")
prop("C16", "Grammar references always point to the section they name",
  "After a grammar is loaded, every reference in a meta rule designates the section of exactly that name and of the right kind, and these references stay valid for as long as the grammar and a search built on it are used: nothing adds, removes or copies sections behind them.",
  ["inputs", "histories"], "all grammars, all uses of a loaded grammar",
  "Dangling or crossed references need several sections in a particular order and do not fail reliably.",
  ["grammar.cpp", "grammar.h", "search.cpp", "search.h", "sectionptr.h"], [("pointer setting", "grammar.cpp:updatePointers"), ("start section lookup", "search.cpp:stringToSectionPtr"), ("references, not copies", "search.h:Search")],
  ["sections followed by the search"], tech="constant propagation of grammars over the line kinds of the format through the loader on LLVM IR; stored pointers compared with the sections of their name; order of pointer stores and container changes")
prop("C17", "A grammar or lexicon that breaks the documented format is rejected as a whole",
  "Loading fails with an error for a grammar with rules before the first section, a duplicate section, mixed rule kinds in a section, a malformed reference line, an invalid rule, a reference to a missing section or no ADDRESS section, and for a lexicon without header, with an entry before the header, an unknown line or an unknown class. Warnings alone never cause rejection, and a defect found early is not forgotten because of what follows.",
  ["inputs"], "all grammar and lexicon texts",
  "Tests use two broken grammars and no broken lexicon.",
  ["grammar.cpp", "lexicon.cpp", "rule.cpp"], [("grammar checks", "grammar.cpp:initialize, updatePointers"), ("lexicon checks", "lexicon.cpp:initialize"), ("rule validity", "rule.cpp:Rule, isValid")],
  ["exceptions thrown by the loaders"], [("status_, issues_", "worst problem found so far", "grammar.h")], tech="constant propagation of documents over the line kinds of the format through the loaders on LLVM IR; outcome compared with the format")
prop("C18", "Results depend only on the arguments; no state is carried between calls",
  "Standardizing, parsing, matching and checksumming give the same answer for the same arguments no matter what was processed before, in what order or how often. No engine function writes a global or static variable, and preparing or searching never alters the grammar, the lexicon's entries or other caller-visible input.",
  ["histories", "schedules"], "all call histories, including reuse of loaded grammars and lexicons",
  "Each test runs in a fresh process with fresh objects, so history cannot show.",
  ["as_wrapper.cpp", "search.cpp", "tokenizer.cpp", "lexicon.cpp", "utils.cpp"], [("no static state; const or by-value use of grammar and lexicon", "as_wrapper.cpp, search.cpp, tokenizer.cpp, lexicon.cpp")],
  ["all results"], tech="interprocedural mod-effect analysis (globals, statics, grammar and lexicon members)")
prop("C19", "Checksums are standard MD5",
  "The checksum of any text is its RFC 1321 MD5 digest in lower-case hexadecimal, independent of how the text is split into pieces when it is fed to the computation.",
  ["inputs"], "all texts of all lengths, all partitions into blocks",
  "No stable test compares a checksum with a reference value.",
  ["md5.cpp", "md5.h"], [("compression function and padding", "md5.cpp:transform, update, finalize"), ("cache key", "as_wrapper.cpp:getMd5")],
  ["md5(), getMd5, getGrammarMd5, getLexiconMd5"], tech="symbolic-free term extraction of the compression function compared with an independent RFC 1321 description")
prop("C20", "A byte order mark at the start of a lexicon or grammar is skipped, nothing else",
  "A lexicon or grammar text that starts with a UTF-8 byte order mark is read exactly as the same text without it. Only the three bytes of the mark are removed, only at the very beginning and only when all three are present.",
  ["inputs"], "every first line, both loaders",
  "One fixture has a mark; only its loading without error is observed.",
  ["lexicon.cpp", "grammar.cpp"], [("mark removal", "lexicon.cpp:initialize; grammar.cpp:initialize")],
  ["parsed first line"], tech="path-sensitive string provenance of the first line")
prop("C21", "SQL declarations agree with the C functions behind them",
  "Every SQL function is declared strict and reads exactly its declared input arguments, each for its documented purpose, and returns as many values, in the declared order and of the declared types, as its output columns; each declared C symbol exists. So no argument is read that can be null or absent.",
  ["inputs", "programs"], "every SQL function, every argument and column",
  "The SQL script is never executed in the unit tests.",
  ["address_standardizer2--2.0.sql.in", "address_standardizer.c"], [("declarations", "address_standardizer2--2.0.sql.in"), ("argument access", "address_standardizer.c:as_compile_lexicon, as_standardize, as_parse, as_match")],
  ["SQL call results"], tech="cross-language interface check: SQL declarations against argument and tuple accesses in the IR")
prop("C22", "as_parse and as_match report every alternative completely and in order",
  "Parsing reports every token of every tokenization exactly once, in order, numbered by alternative and position and with its own text, classes and attachment. Matching reports every match of every tokenization with its own pattern, score and rule count, ordered by falling score.",
  ["inputs"], "all phrases and result lists",
  "No test calls these entries.",
  ["as_wrapper.cpp", "search.cpp"], [("record filling", "as_wrapper.cpp:parse_addr, match_addr, sortByScoresDesc"), ("collection", "search.cpp:searchAndReclassAll")],
  ["TOKENS and MTOKEN arrays, nrec"], tech="constant propagation of addresses through parse_addr and match_addr on LLVM IR; records compared with the tokenizations and the derivations of an independent reading")
prop("C23", "No result depends on uninitialised memory",
  "Every value that decides a branch, is returned, stored in a result or passed on by the engine or the SQL layer has been set before on every path: all members of freshly constructed objects, all slots handed to the caller and all local variables.",
  ["inputs"], "all paths",
  "Uninitialised reads usually happen to be zero in short test runs.",
  ["token.cpp", "lexicon.cpp", "grammar.cpp", "search.cpp", "as_wrapper.cpp", "address_standardizer.c", "std_pg_hash.c"], [("constructors and initialisers", "token.cpp, rule.h, search.h, sectionptr.h")],
  ["branches and results"], tech="definite-initialisation dataflow, constructors and entries")
prop("C24", "Reclassified tokens pair each token with its own rule position",
  "When a match is applied to the tokens, the n-th token gets exactly the input class and the output class at the n-th position of the concatenated rules, no token keeps another class, and the match is refused when counts or classes do not agree. Tokens of unmatched or refused matches are never presented as matched.",
  ["inputs"], "all matches and phrases",
  "One test looks at the result of one match.",
  ["search.cpp"], [("pairing", "search.cpp:reclassTokens"), ("refusal", "search.cpp:searchAndReclassBest, searchAndReclassAll")],
  ["token classes after matching"], tech="abstract interpretation of the pairing loop over fitting and non-fitting rule lists and tokens with unknown texts on LLVM IR")
prop("C25", "Set-returning SQL functions return each row once, then release their data",
  "as_parse and as_match evaluate the address once, on the first call, keep the rows in memory that lives for the whole call sequence, deliver row n on call n with that row's own data, stop after the last row and release the data exactly then. They deliver no row beyond the reported count and none when the engine failed.",
  ["histories", "inputs"], "all row counts and call sequences",
  "Needs a PostgreSQL server; not covered by the unit tests.",
  ["address_standardizer.c"], [("set-returning protocol", "address_standardizer.c:as_parse, as_match")],
  ["SRF protocol macros"], tech="typestate analysis of the set-returning protocol")
prop("C26", "Standard words come from the entry that matches the token's class",
  "Standardizing a token looks the lexicon up by the token's text and uses the standard word of the first entry for that text that has the token's class; if there is none, the token's own text is used. A token's class set from the lexicon is the union of the classes of all its entries, and a token is marked as known exactly when that set is not empty.",
  ["inputs"], "all tokens and lexicons",
  "Tests look up a few words with one entry each.",
  ["lexicon.cpp"], [("lookup", "lexicon.cpp:standardize, classify, find")],
  ["token standard text, classes, known flag"], tech="constant propagation of tokens against multi-entry lexicons through standardize and classify on LLVM IR")
prop("C27", "Text written for an entry, token or rule can be read back to the same value",
  "The text form of a lexicon entry, a token and a grammar rule lists its parts in the order and with the separators and marker words its reader expects, so that reading back what was written restores every part the form carries.",
  ["inputs"], "all values",
  "Tests compare single strings and never read them back.",
  ["lexentry.cpp", "token.cpp", "rule.cpp"], [("writers and readers", "lexentry.cpp, token.cpp, rule.cpp: operator<< and constructors")],
  ["dumped text"], tech="constant propagation of values through writer and reader on LLVM IR")
prop("C28", "The lexicon holds each entry once; removal removes only the equal entry",
  "Inserting an entry makes it findable under its own word after all earlier entries for that word, and changes nothing if an equal entry is already there; removing an entry removes exactly the equal entry and drops the word with its last entry. Entries of other words are never affected, and looking up never changes the lexicon.",
  ["histories"], "all sequences of insertions, removals and lookups",
  "Tests insert distinct words into fresh lexicons.",
  ["lexicon.cpp", "lexentry.h"], [("map maintenance", "lexicon.cpp:insert, remove, find"), ("equality", "lexentry.h:operator==")],
  ["find results"], tech="constant propagation of insert/remove/find histories through the lexicon on LLVM IR, compared with a model; key order decided pairwise")
prop("C29", "Every combination of token classes is tried, once",
  "The list of class sequences that is searched for a phrase contains every way of choosing one class per token, each exactly once and in token order, and the alternate tokenizations are exactly the different ways of splitting or not splitting each splittable token.",
  ["inputs"], "all phrases and class sets",
  "One enumeration of two tokens is tested; alternates are only counted.",
  ["token.cpp", "tokenizer.cpp"], [("mixed-radix enumeration", "token.cpp:enumerate"), ("binary enumeration", "tokenizer.cpp:getAltTokens")],
  ["search patterns, alternate phrases"], tech="constant propagation of token lists through both enumerations on LLVM IR; the lists compared with the product and the power set")

prop("C34", "A loaded grammar or lexicon holds exactly what its text defines",
  "Loading a well-formed grammar yields every section of its text with all its reference lines or rules, each with the names, classes and score written there; loading a well-formed lexicon yields the language and locale of its header and every entry under its own word with its standard word, classes and attachment. Everything is there once and in the order of the text, an entry repeated in the text counts once, and nothing comes from comments or blank lines.",
  ["inputs"], "all well-formed grammar and lexicon texts, with or without a final newline",
  "Tests print two grammars and search one; a lost, repeated or misplaced line shows only with the address that needs it.",
  ["grammar.cpp", "lexicon.cpp", "rule.cpp", "metarule.cpp", "lexentry.cpp"], [("section and rule collection", "grammar.cpp:initialize"), ("line readers", "rule.cpp:Rule; metarule.cpp:MetaRule; lexentry.cpp:LexEntry"), ("entry collection", "lexicon.cpp:initialize, insert")],
  ["sections of a grammar, entries of a lexicon"], tech="constant propagation of documents over the line kinds of the format through the loaders on LLVM IR; loaded members compared with an independent reading of the text")

prop("C35", "A word the lexicon does not know is classified by its shape",
  "A token that has no lexicon entry gets exactly the classes documented for its shape: digits are NUMBER (four of them also QUAD, five also QUINT), letters are WORD (one letter also SINGLE, two letters also DOUBLE, counted in letters and not in bytes), letters mixed with digits are MIXED (postal code halves also PCH or PCT), and fractions, decimal numbers, slash, at sign, hyphen, ampersand, em dash, blanks and punctuation get the class of their kind. A token of no documented shape gets the class the caller asks for.",
  ["inputs"], "all token texts",
  "Tests tokenize a few addresses in ASCII; most shapes and every boundary between them are never touched.",
  ["lexicon.cpp"], [("shape tests", "lexicon.cpp:Lexicon::classify")],
  ["token classes"], tech="constant propagation of token texts of every documented shape through the classification on LLVM IR")

# Genuinely outside this family
prop("C30", "Tokenizing loses no text of the address",
  "For an address that begins with a letter, a digit or a blank and is made of letters, digits, blanks and punctuation, the unfiltered tokens' texts in order are the address's text, blanks aside: every other character belongs to exactly one token, also where words are cut at attached prefixes and suffixes or between digits and letters.",
  ["inputs"], "all such addresses and all lexicons", "Tests tokenize a few addresses, nearly all without overlapping prefixes and suffixes.",
  ["tokenizer.cpp"], [("scan loop and splitting", "tokenizer.cpp:getTokens, splitToken")], ["token texts"],
  tech="constant propagation of addresses against lexicons with touching, crossing and nested attachments on LLVM IR")
prop("C31", "Standardizing stays within time and memory proportional to its input",
  "Enumerating classes, alternates and derivations for one address needs time and memory within a documented bound.",
  ["inputs"], "all addresses, lexicons and grammars", "Tests use short addresses.",
  ["search.cpp", "token.cpp", "tokenizer.cpp"], [("enumeration", "token.cpp:enumerate; tokenizer.cpp:getAltTokens; search.cpp:match")], ["run time"],
  na="The code enumerates products of run-time set sizes and powers of two of run-time counts without any limit, so no bound exists to prove; the size is a run-time quantity.")
prop("C32", "A compiled lexicon standardizes every address like its source text",
  "For every address and grammar, the result with the compiled form of a lexicon equals the result with its plain text.",
  ["inputs"], "all addresses, lexicons, grammars", "Tests compare nothing of this kind.",
  ["lexicon.h", "as_wrapper.cpp"], [("serialization", "lexicon.h")], ["results"],
  na="Equality of two complete executions over all inputs, through Boost archive encoding of arbitrary text, is a relational run-time property; its static core (every member is saved and restored in order, patterns computed first) is C06, the version gate and fallback are C07.")
prop("C33", "Unicode normalisation, upper-casing and accent removal are correct",
  "Normalisation yields NFC-equivalent text, upper-casing follows the locale's rules, and accent removal drops exactly the combining marks.",
  ["inputs"], "all UTF-8 texts and locales", "Tests use a few words.",
  ["utils.cpp"], [("ICU calls", "utils.cpp")], ["returned text"],
  na="The transformation is performed inside ICU with run-time data tables; its correctness is not visible in this source. That the steps are applied on every path is C10.")

def main():
    checks = []; na = []
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(d) + "\n")
            have = os.path.exists(os.path.join(HERE, "checks", p["id"] + ".py"))
            if have:
                checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                    "evidence_file": "evidence/%s.json" % p["id"], "technique": "static analysis: " + (p["tech"] or "abstract interpretation"),
                    "level": "other", "level_note": p["note"] or "static analysis of /repo's current source (LLVM IR of all translation units); nothing is executed; bounds and assumptions in DESIGN.md and in the evidence file"})
            else:
                na.append({"property": p["id"], "reason": p["na"] if p["na"] and p["na"] != "pending" else "no static check has been built for this property yet"})
    m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks,", len(na), "not applicable")
main()
