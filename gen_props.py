#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))

IDX=["index_memory_index.go","search_hits_search.go","search_linear_search.go"]
p("S01","Hit-counting and linear search return exactly the matching documents",
  "For any sequence of documents put into an index and any query, hit-counting search and linear search each return exactly the stored documents whose analyzed text contains every word of the analyzed query: none missing, none extra, each stored document once. Every put stores a separate document that is judged on its own, even when several documents share a name. A query that analyzes to no words returns nothing.",
  ["inputs","histories"],"every sequence of puts (any names, contents, sizes, repeated names) interleaved with any queries",
  "The tests query indexes of at most four hand-written documents with distinct names and at most three words; the claim ranges over all document collections and queries.",
  IDX,[("posting list built at put time","index_memory_index.go"),("threshold on hit count","search_hits_search.go"),("intersection of sorted posting lists","search_linear_search.go")],["index search results"],
  [dict(name="postings",meaning="for each word, positions of the documents containing it",where="index_memory_index.go")])
p("S02","Result order and hit counts",
  "Hit-counting search returns its matches by descending hit count, equal counts in the order the documents were put, and each reports as its hit count the number of distinct words in the analyzed query. Linear search returns its matches in the order the documents were put, and each reports the number of words in the analyzed query, repetitions included.",
  ["inputs","histories"],"every document collection of any size, any document names, and any query",
  "The tests check order on three documents whose names happen to sort in put order, and counts for at most three distinct words; more documents (where the sort algorithm changes), other names and repeated words are never tried.",
  ["search_hits_search.go","search_linear_search.go","search_result.go"],[("stable ranking","search_hits_search.go"),("ordered intersection","search_linear_search.go")],["index search results"])
p("S03","The two no-op engines return everything and nothing",
  "Whatever the index holds and whatever the query, the match-all engine returns every stored document exactly once, in the order put, with a hit count of zero, and the match-none engine returns no document.",
  ["inputs","histories"],"every index content (including empty and repeated names) and every query",
  "The tests only use the match-all engine to see that a search does not fail; they never look at what it returns.",
  ["search_noop_search.go","index_memory_index.go"],[("scan over stored documents","search_noop_search.go")],["index search results"])
p("S04","Stored documents come back byte for byte, found by their statement",
  "A document returned by any search carries exactly the name and the content it was put with, byte for byte, whatever those bytes are. A document is matched on the statement of its request: the content for a plain request, and only the separately given statement (never the content or the name) when there is one. Putting a document never alters documents stored before it. A put returns the index itself, so puts may be chained.",
  ["inputs","histories"],"every name, content and statement (empty, huge, control characters, invalid UTF-8), every request constructor, any number of puts",
  "The tests use short ASCII names, compare names only and never use a separate statement.",
  ["entities_request.go","entities_doc.go","index_memory_index.go"],[("document copied from request at put","index_memory_index.go"),("request constructors","entities_request.go")],["index search results","request accessors"])
p("S05","Searching never changes the index and results are detached from it",
  "Running any searches, in any number and order, leaves the index answering every later search as before: repeating a query with no put in between gives the identical result sequence, and a put is visible to the very next search. Results already returned never change afterwards, and a caller overwriting a returned result list does not affect the index or any other result.",
  ["inputs","histories"],"every interleaving of puts, searches with any engine, and caller-side modification of returned results",
  "The tests repeat one query ten times and compare counts; they never modify a result or interleave puts with repeated queries.",
  IDX+["search_noop_search.go"],[("posting lists copied out","index_memory_index.go"),("fresh result slices","search_hits_search.go")],["index search results over time"])
p("S06","Custom engines see a faithful view of the index",
  "A search engine supplied by the user receives the analyzed query words in order, and a view in which the document count equals the number of puts, position i holds the i-th document put, and the positions for a word are exactly the documents containing that word, ascending and without repetition (none for an unknown word). What the engine returns is what the search returns, and the engine modifying the lists it was handed does not affect the index.",
  ["inputs","histories"],"every sequence of puts, every word, every user-supplied engine",
  "No test supplies its own engine or looks at the view; the built-in engines rely on it for their correctness.",
  ["index_memory_index.go","search_search.go"],[("position = insertion rank","index_memory_index.go"),("posting copy","index_memory_index.go")],["arguments seen by a recording engine"])
p("S07","Search engines work on any index implementation",
  "The four search engines are correct on any faithful index view, not only the built-in one. Called with a list of words, hit-counting and linear search return exactly the documents at the positions listed for every one of the words, in position order, with the number of distinct words (hit-counting) or of words (linear) as hits, and nothing for no words; match-all returns every document, match-none nothing. They ask only for existing positions and modify neither the word list nor the position lists they are given.",
  ["inputs"],"every view (any number of documents, words and positions, lists shared or copied, empty or nil), every list of words including repeated and unknown ones",
  "The tests only call the engines through the built-in index, which hands out private copies, with at most three words.",
  IDX[1:]+["search_noop_search.go","search_search.go"],[("threshold on hit count","search_hits_search.go"),("intersection of sorted posting lists","search_linear_search.go")],["engine results on a recording view, the view's lists afterwards"])
p("S08","Result lists sort by relevance and documents have name keys",
  "Sorting a list of search results with the standard library orders it by descending hit count and, among equal counts, by ascending document name, losing and repeating nothing, for any hit counts and names. A document's hash key depends on its name only and on all of it: names that differ anywhere (one letter, the end, the order of their parts) get different keys, but for the rare chance collision that a 64-bit digest cannot avoid.",
  ["inputs"],"every list of results, every pair of documents",
  "The tests sort at most three results and never look at keys.",
  ["search_result.go","entities_doc.go"],[("comparison","search_result.go"),("digest of the name","entities_doc.go")],["sorted lists, keys"])
p("A01","Tokenizers split any text into exactly its kept runs",
  "For any text, valid UTF-8 or not, the alphanumeric tokenizer returns exactly the maximal runs of Unicode letters and numbers, in order, none empty, none split, none lost, and never fails. A tokenizer built from user predicates does the same for the characters that satisfy at least one predicate.",
  ["inputs"],"every byte string, every set of predicates",
  "The tests tokenize a handful of Spanish and English sentences and never compare the tokens themselves.",
  ["analyze_clean_tokenizer.go"],[("field splitting on rejected runes","analyze_clean_tokenizer.go")],["tokenizer output"])
p("A02","The analysis pipeline applies its filters in order, without side effects",
  "A pipeline's output is its tokenizer's output passed through each filter once, in the order given when it was made. The lower-casing filter maps each word to its lower case, the stop-word filter removes exactly the words listed and keeps all others in order, and the Spanish stemmer maps each word to its Spanish Snowball stem whatever words surround it. No filter modifies the word list it was given, and no earlier or repeated use changes a later answer.",
  ["inputs","configurations","histories"],"every text, every list of words, every combination and order of filters, every stop-word list, any history of earlier calls",
  "The tests always use the same one or two pipelines and only observe them through search hits of a few queries.",
  ["analyze_compose.go","analyze_lowercase_filter.go","analyze_stopwords_filter.go","analyze_stem_filter.go"],[("sequential composition","analyze_compose.go"),("fresh output slices","analyze_*_filter.go")],["filter and pipeline output"])
p("A03","Documents are found by their own words however the query is written",
  "With the Spanish pipeline (alphanumeric tokens, lower-casing, stop words, stemming), a document is found by any non-empty selection of the words of its text that are not stop words. The result does not depend on the letter case, order, repetition or punctuation of the query's words, nor on stop words added to it; the same holds for the case and punctuation of the documents' text.",
  ["inputs"],"every text and query over Latin-script Spanish words, digits, punctuation and stop words",
  "The tests look up a few fixed lower-case words; the claim relates unboundedly many ways to write the same query and document.",
  ["analyze_clean_tokenizer.go","analyze_compose.go","analyze_lowercase_filter.go","analyze_stopwords_filter.go","analyze_stem_filter.go","index_memory_index.go"],[("same pipeline at put and at search","index_memory_index.go")],["search results of paired queries"])
p("A04","A shared analysis pipeline is safe to use from many goroutines",
  "Any number of goroutines may analyze texts with one shared pipeline, or search one index that nobody is writing to, at the same time: each gets the same answer as if it ran alone, and no data race or crash occurs.",
  ["schedules","inputs"],"every interleaving of concurrent analyses and read-only searches",
  "The existing tests run every analysis and every index search from a single goroutine, except one two-index alias search.",
  ["analyze_compose.go","analyze_clean_tokenizer.go","analyze_lowercase_filter.go","analyze_stopwords_filter.go","analyze_stem_filter.go","index_memory_index.go"],[("stateless filters","analyze_*_filter.go")],["outputs under concurrency","race detector"])
p("A05","Spanish word regions follow the Snowball definition",
  "For every word, R1 is the part after the first non-vowel that follows a vowel, R2 is the same region taken within R1, and RV follows the Spanish Snowball rule (second letter a consonant: after the next vowel; first two letters vowels: after the next consonant; otherwise after the third letter), each region empty when its position does not exist. The computation never fails and never modifies the word, whatever bytes it holds.",
  ["inputs"],"every byte string, in particular every word over the Spanish alphabet with accents",
  "The test checks four words, all of which have a non-empty R1; RV is specified independently of R1.",
  ["stemmer_spanish_snowball.go"],[("region scan","stemmer_spanish_snowball.go")],["returned regions"])
R=["repos_repo.go"]
p("R01","Index life cycle in the repository",
  "Putting a document under a name that is neither an index nor an alias creates an index of that name holding that document; putting under an existing index name appends to it. An index is reported and listed (exactly once) from its first put until it is dropped or renamed, searches on it return exactly its documents, and once dropped its documents are gone even if the name is used again. Dropping or searching a name that does not exist reports failure and changes nothing.",
  ["histories","inputs"],"every sequence of repository operations over any names (including empty or odd names and names used both as index and as alias)",
  "Each test performs at most five operations on one or two names, and mostly checks a boolean.",
  R,[("index table","repos_repo.go")],["return values, listings and search results after every operation"],[dict(name="indices",meaning="index name to index",where="repos_repo.go")])
p("R02","Alias reads and writes reach exactly the pointed indices",
  "A put addressed to an alias stores the document exactly once in each index the alias points to and in no other, and creates no index. A search addressed to an alias returns exactly the results of every index it points to, each once, nothing else. When a name is both an index and an alias, the index is used.",
  ["histories","inputs"],"every sequence of repository operations, any number of indices per alias and aliases per index",
  "The tests put once through a single-index alias without checking where the document went, and search one two-index alias.",
  R,[("name resolution: index first, then alias","repos_repo.go"),("fan-out over pointed indices","repos_repo.go")],["search results of every index and alias after each operation"])
p("R03","Alias table is exact and never dangling",
  "Attaching an index to an alias succeeds exactly when the index exists and is not attached yet; detaching removes just that association, and removing a whole alias reports whether it existed. The listing shows exactly the attached associations: never an index that does not exist, never the same index twice, and never an alias left without any index, which disappears when its last index is detached or dropped. Detaching with an unknown alias or index reports failure and changes nothing.",
  ["histories","inputs"],"every sequence of alias, detach, rename, drop and put operations over any names",
  "The tests check single operations on one alias; what is left in the table after sequences of them is never inspected.",
  R,[("alias table","repos_repo.go"),("purge on drop","repos_repo.go")],["alias listing, alias existence and return values after every operation"],[dict(name="aliases",meaning="alias to the names of the indices it points to",where="repos_repo.go")])
p("R04","Renaming keeps documents and aliases",
  "Renaming an existing index moves it, with all its documents and their order, to the new name: the old name disappears, the new name answers exactly as the old one did, and every alias that pointed to the old name points to the new one exactly once. Renaming an index to its own name changes nothing, renaming onto another existing index replaces that index, and renaming an unknown index reports failure and changes nothing.",
  ["histories","inputs"],"every sequence of renames (self, chained, swapped, onto existing names or alias names) mixed with other operations",
  "The tests rename once to a fresh name and only check that a search through the alias does not fail.",
  R,[("table swap and alias rewrite","repos_repo.go")],["search results and alias listing before and after rename"])
p("R05","Operations on one index never affect another",
  "An operation changes only the indices it addresses (directly or through an alias): the documents, existence and answers of every other index, and the associations of every alias not concerned, stay as they were. Separate repositories never influence one another, even when they share an analysis pipeline.",
  ["histories","inputs"],"every sequence of operations over many indices, aliases and repositories",
  "The tests never look at an index other than the one they operate on.",
  R+["index_memory_index.go"],[("one index object per name","repos_repo.go"),("builder","index_memory_index.go")],["search results of all indices after each operation"])
p("R06","Listings and result streams are stable snapshots",
  "An index listing, an alias listing or a result stream obtained from the repository keeps its contents whatever operations follow, including renames, drops and puts on the indices it came from. A caller changing a listing it received does not change the repository or any other listing, and a stream yields each result once and then ends without error.",
  ["histories","inputs","schedules"],"every operation performed after a listing or stream was obtained, and every modification by the caller",
  "No test keeps a listing or stream across another operation, or modifies one.",
  R,[("copied listings","repos_repo.go"),("results materialised before return","repos_repo.go")],["earlier snapshots re-read after later operations"])
p("R07","Searching an alias is deterministic",
  "As long as the repository is not changed, repeating a search on an index or on an alias, however many indices it points to and however fast each of them answers, yields the same results in the same order; results coming from one index keep that index's order.",
  ["schedules","inputs","histories"],"every timing of the per-index searches behind an alias",
  "The determinism test only searches a single index directly; the search behind a multi-index alias runs concurrently and its timing varies.",
  R,[("results combined in a fixed order","repos_repo.go")],["repeated result sequences under injected per-index delays"])
p("R08","Pluggable indices are driven exactly once per operation",
  "With a user-supplied index builder, the repository calls the builder exactly once for each index it creates, with that index's name, delivers each put document unchanged exactly once to every index addressed (the one built, whatever its puts return), and passes each search's terms and engine unchanged exactly once to every index addressed, to no other, before the operation returns.",
  ["histories","schedules","inputs"],"every sequence or concurrent mix of repository operations with any index implementation",
  "The tests use only the built-in index and cannot see how often it is called.",
  R+["index_index.go"],[("builder call on creation","repos_repo.go"),("fan-out with completion wait","repos_repo.go")],["calls recorded by an instrumented index implementation"])
p("R09","Textual dumps show exactly the current contents",
  "The textual dump of an index shows every word its documents hold exactly once, with the number and the ascending positions of the documents holding it, and no other word. The dump of a repository shows this for every index it currently has, exactly once each, whatever puts, renames, alias changes and drops preceded.",
  ["histories","inputs"],"every sequence of puts and repository operations",
  "No test looks at a dump.",
  ["index_memory_index.go"]+R,[("dump of postings","index_memory_index.go"),("dump of all indices","repos_repo.go")],["dump text compared with the puts"])
p("R10","Dropped and replaced indices are released",
  "Once an index has been dropped, or replaced by a rename onto its name, the repository holds neither it nor its documents in memory any more. Operations that leave the repository as it was (searches, listings, failed operations, aliases set and removed again, indices created and dropped) do not make its memory grow, however often they are repeated.",
  ["histories"],"every sequence of operations, any number of repetitions",
  "The tests never look at memory and never run long enough for a leak to show.",
  R+["index_memory_index.go"],[("removal from the index and alias tables","repos_repo.go")],["weak references to documents and indices after collection, live heap after repetitions"])
p("X01","Concurrent repository operations are linearizable",
  "Every history of concurrent puts, searches, existence checks, listings, aliasing, detaching, renames and drops is equivalent to executing the operations one at a time in some order that respects real time: return values, listings and search results are those the sequential repository would give.",
  ["schedules","histories"],"every interleaving of any concurrent operations on shared names",
  "No test calls the repository from more than one goroutine.",
  R,[("index lock and alias lock","repos_repo.go")],["concurrent histories recorded at the caller"],None,"yield points between statements and around locks, injected at build time into a copy")
p("X02","Concurrent repository use is free of data races and crashes",
  "Any mix of repository operations, including listings, textual dumps and consumption of returned results, may run from any number of goroutines without a data race, a panic or a runtime abort.",
  ["schedules","histories"],"every interleaving of any concurrent operations",
  "The suite runs under the race detector, but no test uses the repository concurrently.",
  R+["index_memory_index.go"],[("index lock and alias lock","repos_repo.go")],["race detector reports, panics, fatal errors"])
p("X03","Every operation completes; failed operations leave nothing locked",
  "Every repository operation returns, whatever operations preceded it or run concurrently, including operations that failed because a name or alias does not exist; no sequence or interleaving of operations leaves a later one blocked forever, nor does an operation wait for as long as searches keep coming.",
  ["histories","schedules"],"every sequence of successful and failing operations, and every interleaving of concurrent ones",
  "The tests never call another operation after a failed one, and never use the repository concurrently.",
  R,[("lock release on every path","repos_repo.go"),("fixed lock order","repos_repo.go")],["tasks blocked with none able to run"])
p("X04","No acknowledged put is lost or duplicated under concurrency",
  "However many goroutines put documents at the same time, directly, through aliases, or as the first puts that create an index, every document whose put returned is stored exactly once in every index it was addressed to and is found by any search that starts afterwards; the documents put by one goroutine to one index appear in that goroutine's order.",
  ["schedules","histories"],"every number of writers and every interleaving, including concurrent creation of the same index",
  "All tests put from a single goroutine.",
  R+["index_memory_index.go"],[("exclusive section around resolution and write","repos_repo.go")],["documents found after all puts returned, and by readers during the run"])
p("X05","Writes through an alias are atomic to readers",
  "A document put through an alias that points to several indices becomes visible in all of them at once: a concurrent search through an alias covering those indices returns it from all of them or from none. A search never observes a document partly indexed: a document visible to one engine is matched by all of its words.",
  ["schedules"],"every interleaving of alias puts with alias searches",
  "No test searches while a put is in progress.",
  R,[("write lock held over the whole fan-out, read lock over the whole search","repos_repo.go")],["results of searches concurrent with alias puts"])
p("X06","Hot swap through an alias never interrupts service",
  "While an alias is being moved from one index to another by attaching the new one before detaching or dropping the old one, or while an index it points to is being renamed, every concurrent search or put through the alias resolves: no search fails or misses a document of an index that stays attached throughout, and no put is lost or creates a stray index named like the alias.",
  ["schedules","histories"],"every interleaving of hot swaps and renames with searches and puts through the alias",
  "The hot-swap test runs the steps one after the other from one goroutine and checks only that a search does not fail.",
  R,[("alias resolution and index access under one critical section","repos_repo.go")],["results and errors of concurrent alias operations"])
p("X07","Operations leave nothing running",
  "When a repository operation returns, all work it started has finished: no index is still being searched or written on its behalf, none is called later, and no goroutine it started stays behind. This holds for every operation, successful or failing, on any number of indices of any speed, alone or concurrent with others.",
  ["schedules","histories"],"every operation, every timing of the indices it addresses, every interleaving with other operations",
  "The tests never look at goroutines or at indices after an operation has returned, and the built-in index answers at once.",
  R,[("fan-out with completion wait","repos_repo.go")],["calls in progress when an operation returns, goroutines left over"])
J=["search_result.go","search_result_easyjson.go","entities_doc.go"]
p("X08","Reading and stateless calls are safe from many goroutines",
  "Any number of goroutines may at the same time compute word regions, split texts, filter word lists, hash, compare, sort copies of, encode and decode results, run the engines on one shared view, search, dump, list and encode one index that nobody is putting into, and build and fill indices of their own with one shared builder: each call gives the same answer as if it ran alone, nothing shared that it was handed is written to, and no data race or crash occurs.",
  ["schedules","inputs"],"every interleaving of such calls on shared values",
  "Apart from one alias over two indices the tests call everything from a single goroutine, and hidden shared state (caches, scratch buffers, pools) gives right answers there.",
  ["stemmer_spanish_snowball.go","entities_hash.go","search_result.go","search_result_easyjson.go","search_hits_search.go","search_linear_search.go","search_noop_search.go","index_memory_index.go","analyze_clean_tokenizer.go"],[("no state beyond the arguments","stemmer_spanish_snowball.go"),("postings copied out","index_memory_index.go"),("writer and lexer per call","search_result_easyjson.go")],["answers under concurrency","race detector"])
p("J01","Search results survive JSON encoding and agree with standard JSON",
  "Encoding a search result to JSON and decoding it again gives back the same name, content and hit count for every valid UTF-8 text and every integer, whether through the direct, the standard-library or the streaming entry point. The encoding is valid JSON with the fields doc (id, raw) and hits, and any JSON object equivalent to it (other field order, white space, escapes, unknown or null fields) decodes as the standard library would decode it.",
  ["inputs"],"every result value and every equivalent JSON text",
  "No test encodes or decodes a result.",
  J,[("generated encoder and decoder","search_result_easyjson.go")],["encoded bytes and decoded values"])
p("J02","Decoding untrusted JSON is safe",
  "Decoding a search result from any byte string never crashes or hangs. Input that is cut short, that continues after the closing brace, or whose fields hold a value of the wrong JSON type (or a number that is not an integer in range) is reported as an error. A decoded result does not depend on the input buffer afterwards: overwriting the buffer does not change it.",
  ["inputs"],"every byte string, in particular truncated and mutated encodings",
  "No test decodes anything.",
  J,[("generated decoder","search_result_easyjson.go")],["decode errors, panics and decoded values"])
p("J03","An index saved as JSON and loaded again answers identically",
  "Marshalling an index with the standard library and unmarshalling it into a fresh index with the same analyzer yields an index that gives the same answer to every query with every engine and keeps accepting documents correctly. The dump lists every document in put order and, for every word, the ascending positions of the documents containing it.",
  ["inputs","histories"],"every sequence of puts of valid UTF-8 documents, before and after the reload",
  "No test serialises an index.",
  ["index_memory_index.go","entities_doc.go"],[("exported document and posting fields","index_memory_index.go")],["answers of the original and the reloaded index"])
p("C01","Work grows in proportion to the input",
  "However long or repetitive the input, a call takes work and memory about in proportion to it: analyzing a text and computing word regions to the length of the text (one endless word, words repeated or all different, punctuation, bytes that are no text); putting a document into an index to the length of its statement, however many documents the index holds, with the same words or others; a search, as documented, to the query's words, the positions listed for them and the documents in the index, times the cost of sorting the results; encoding, decoding, dumping and loading to the length of the JSON or dump, whatever its nesting and escapes; a repository operation to the indices, alias entries and results it touches. No input makes a call quadratic.",
  ["inputs"],"every text, query, collection, JSON text and repository, of any size and shape",
  "The tests use inputs of a few dozen bytes and at most four documents, where a quadratic algorithm is as fast as a linear one, and measure nothing.",
  ["analyze_clean_tokenizer.go","analyze_compose.go","analyze_stem_filter.go","stemmer_spanish_snowball.go","index_memory_index.go","search_hits_search.go","search_linear_search.go","search_result_easyjson.go","repos_repo.go"],
  [("one pass over the text","analyze_clean_tokenizer.go"),("two-pointer intersection","search_linear_search.go"),("hit counting in a map","search_hits_search.go"),("one pass over the JSON","search_result_easyjson.go")],
  ["statements executed, bytes allocated and processor time of one call at sizes growing by a factor"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
