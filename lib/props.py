"""The one place the properties and the manifest are written down: python3 lib/props.py rewrites
properties.jsonl and MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, spec, level="model_checking", note="", state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  observe=observe, spec=spec, level=level, note=note, state=state, hook=hook))


API = "anytime/JASS_anytime_api.cpp"
prop("P01", "Unlimited search returns the exact top-k ranking",
     "With no budget and no oracle score, a query returns exactly the k documents with the largest sums of (query-term frequency x stored impact), fewer only if fewer documents match, each at most once, each with its true sum. Results are in decreasing score order with ties broken towards the higher document number, whatever k is, however the accumulators are paged, and whichever index format or codec is used. Sums that cannot fit the score range are first scaled linearly, so order is preserved up to that rounding.",
     ["inputs", "configurations"], "every index, every query (repeated and unknown terms included), every k up to the maximum, every accumulator width, both formats, every codec",
     "the unit tests run a handful of fixed queries over a ten-document collection with one configuration",
     ["source/query.h", "source/query_heap_clean.h", "source/accumulator_2d.h", "source/heap.h", "source/top_k_qsort.h", API],
     [("segment ordering, scaling and accumulation", API), ("accumulators with lazy clearing", "source/accumulator_2d.h"), ("bounded heap then top-k sort", "source/query_heap_clean.h")],
     ["results_list of one search"],
     "SearchContract.tla (oracle), SearchAlg.tla (algorithm, exhaustively checked against it), EngineTrace.tla (recorded answers)",
     note="SearchAlg is exhaustive over 3 documents x 2 terms; the real engine is judged on generated and random indexes up to 520 documents. Scaled impacts that are exact quotients may round down by one.")
prop("P02", "A postings budget yields the best maximal prefix of the work",
     "With a postings budget (absolute, a share of the collection, or a share of the query's own postings), a query processes whole groups of equal-impact postings in decreasing impact order, smaller groups first on ties, and stops just before the first group that would exceed the budget. The number of postings it reports is the number it processed, never exceeds the budget, and the ranking returned is the exact top k of the scores accumulated so far. A budget derived for one query never carries over to the next.",
     ["inputs", "histories", "configurations"], "every index, query, budget kind and value, and sequence of budget changes on one engine",
     "no unit test drives the engine with a budget, and none changes it between queries",
     [API, "anytime/JASS_anytime_api.h", "source/query_heap_clean.h"],
     [("budget test before each segment", API), ("relative budget computed per query", API)], ["postings_processed and results_list"],
     "SearchContract!StopsAt/Answer, SearchAlg budgets -1,0..5 exhaustively, EngineTrace",
     note="The order of groups with the same impact and size is unspecified; every order is allowed.")
prop("P03", "An oracle score only ends a query early when k documents reached it",
     "With an oracle score for a query, processing may stop early only once k documents have reached that score and the minimum number of postings has been processed; otherwise the answer is the same as without the oracle, topped up to k where documents exist. Every document returned after an early stop has at least the oracle score, and the results are the exact top k of what was accumulated. Scores beyond the representable range act as the largest representable score, and a score of 0 or 1 has no effect.",
     ["inputs", "configurations", "histories"], "every index, query, oracle table, k, and minimum",
     "no unit test loads an oracle table or checks the early exit",
     [API, "anytime/JASS_anytime_api.h", "source/query_heap_clean.h", "anytime/JASS_anytime_thread_result.h"],
     [("early exit when the heap fills", "source/query_heap_clean.h"), ("top-up from the accumulators", "source/query_heap_clean.h")], ["postings_processed and results_list"],
     "SearchContract!OracleTop/OracleStop, SearchAlg with oracle scores and minimums, EngineTrace")
prop("P04", "A query's answer does not depend on the queries before it",
     "An engine that has answered any number of other queries answers a query exactly as a new engine with the same settings would: nothing of earlier scores, candidates, budgets, oracle scores or parsing state survives. Asking the same query again under the same settings gives the identical result.",
     ["histories", "inputs"], "every sequence of queries and setting changes on one engine",
     "unit tests use a fresh object per query or a single fixed sequence",
     [API, "source/query.h", "source/query_heap_clean.h", "source/accumulator_2d.h"],
     [("rewind of accumulators, heap and parser before each query", "source/query_heap_clean.h")], ["results of repeated and interleaved searches"],
     "Engine.tla memo of every answer already given + SearchContract, SearchAlg, EngineTrace")
prop("P05", "Parallel search answers every query once, as sequential search would",
     "A parallel search over a list of queries with any number of workers and any interleaving answers every query exactly once, and every answer is identical to the one sequential search gives under the same settings. No query is skipped or answered twice, whatever the order or speed of the workers, including when there are more workers than queries and when the list contains empty queries.",
     ["schedules", "inputs", "configurations"], "every interleaving of the workers' operations on the shared list, every list of queries, every number of workers",
     "the unit tests run one fixed list once; the interleavings are left to chance",
     [API, "anytime/JASS_anytime_query.h", "anytime/JASS_anytime_thread_result.h"],
     [("compare-and-swap claim of the next query", "anytime/JASS_anytime_query.h"), ("per-thread search state", API)], ["the results per worker", "the claim of the next query"],
     "Claim.tla (every interleaving), ClaimTrace.tla (real claim code under a controlled scheduler: all schedules up to a pre-emption bound, random ones, real threads), EngineTrace!ThreadedSearch")
prop("P06", "The engine's life cycle: settings, loading and failures behave as promised",
     "Settings the index depends on can be changed only before an index is loaded and only within their limits; a refused or failed call reports why and changes nothing, so a failed load can be followed by a successful one. The index is loaded at most once, queries without an index return nothing, and what can be read back (document count, k, budget, encoding) always matches what was last accepted.",
     ["histories", "configurations", "fault_sequences"], "every order of configuration, load (missing directory, bad version, twice) and search calls",
     "unit tests make one successful pass through the calls",
     [API, "anytime/JASS_anytime_api.h", "source/deserialised_jass_v1.cpp", "source/deserialised_jass_v2.cpp"],
     [("state checks at the head of each call", API)], ["return codes, getters and search results"],
     "Engine.tla call by call, EngineLife_MC (exhaustive life cycle), EngineGen_life behaviours replayed, EngineTrace")

IX = ["source/index_manager_sequential.h", "source/index_postings.h", "source/index_postings_impact.h"]
prop("P07", "The in-memory index records exactly what the documents contained",
     "Whatever documents are indexed, each term's postings list holds exactly the documents the term occurred in, once each in increasing order, with the sum of its occurrences up to the largest representable value. Every term, every document length and every primary key is reported exactly once and unchanged, even though the caller's buffers are reused, and ordering a list by impact neither loses, invents nor reorders postings within an impact.",
     ["inputs", "histories"], "every sequence of documents and terms (any bytes, any counts), interleaved with iterations over the index",
     "the unit tests index one ten-document collection",
     IX + ["source/hash_table.h", "source/binary_tree.h", "source/dynamic_array.h", "source/allocator_pool.h"],
     [("postings accumulation", "source/index_postings.h"), ("iteration and impact ordering", "source/index_postings.h")], ["what an iteration hands to its callback"],
     "Index.tla, Index_MC (exhaustive small indexes), IndexGen_memory behaviours, IndexTrace")
prop("P08", "The first on-disk format round-trips and is laid out as documented",
     "Writing any index in the first format yields files that say exactly that index: a sorted vocabulary, for each term its impacts in decreasing order with the right documents in order, segments that do not overlap and respect the alignment, and every primary key. Reading the files gives back exactly those terms, impacts, documents and keys, finds every term that is there and none that is not, and fails cleanly when they are missing.",
     ["inputs", "configurations"], "every index, codec and alignment",
     "the unit tests compare checksums of one fixed collection",
     ["source/serialise_jass_v1.cpp", "source/serialise_jass_v1.h", "source/deserialised_jass_v1.cpp", "source/deserialised_jass_v1.h"],
     [("writer", "source/serialise_jass_v1.cpp"), ("reader and binary search of the vocabulary", "source/deserialised_jass_v1.h")], ["the bytes of the four files", "what the reader reports"],
     "IndexFiles.tla (byte-level reading and writing), Index_MC!RoundTrip, IndexTrace (real bytes and real reads)")
prop("P09", "The second format and every codec say the same index as the first",
     "Writing any index in the second format, with any supported codec, yields files that say exactly the same terms, impacts, documents and keys as the first format does, and reading them gives back exactly that. The codec recorded in the files is the one they were written with, so what a reader sees never depends on the format or the codec chosen.",
     ["inputs", "configurations"], "every index, format and codec",
     "the unit tests compare checksums of one fixed collection with one codec",
     ["source/serialise_jass_v2.cpp", "source/serialise_jass_v2.h", "source/deserialised_jass_v2.cpp", "source/deserialised_jass_v2.h", "source/deserialised_jass_v1.cpp"],
     [("writer", "source/serialise_jass_v2.cpp"), ("variable-byte vocabulary reader", "source/deserialised_jass_v2.cpp"), ("codec table", "source/deserialised_jass_v1.cpp")], ["the bytes of the four files", "what the readers report"],
     "IndexFiles.tla, Index_MC!RoundTrip, IndexTrace")
prop("P10", "Quantised impacts preserve the order and range of the scores",
     "Quantising any index maps each posting's score linearly onto the whole impact range: the lowest score becomes the smallest impact, the highest the largest, equal scores get equal impacts and a higher score never a lower impact. The scores themselves follow the evidence (more occurrences, a shorter document and a rarer term never score less), and leaving an index unquantised keeps its frequencies.",
     ["inputs", "configurations"], "every index and every setting of the ranking function",
     "the unit tests check a checksum of one collection",
     ["source/quantize.h", "source/quantize_none.h", "source/ranking_function_atire_bm25.h", "source/index_manager.h"],
     [("score bounds and uniform quantisation", "source/quantize.h"), ("BM25", "source/ranking_function_atire_bm25.h")], ["the impacts handed to the writer"],
     "Index.tla!Quantize/Bm25, Index_MC!Quantised, IndexTrace",
     note="Floating point: a quantised score that is an exact quotient may be rounded down by one, except at the ends of the range. BM25 values are judged by their order, not their digits.")
prop("P33", "The raw postings and forward index dumps say exactly the index",
     "Dumping an index as raw integers gives, for every term and impact, one list of exactly its documents; dumping it as a forward index gives one line per document that contains any term, in document order, naming each of its terms once with its frequency.",
     ["inputs"], "every index", "the unit tests check one fixed collection or only that a file appears",
     ["source/serialise_integers.h", "source/serialise_integers.cpp", "source/serialise_forward_index.h", "source/serialise_forward_index.cpp"],
     [("integer dump", "source/serialise_integers.cpp"), ("forward index", "source/serialise_forward_index.cpp")], ["the bytes of the dumps"],
     "Index.tla!Integers_/Forward, IndexTrace")

prop("P11", "Every integer codec returns exactly the integers it was given",
     "For every list of integers a codec accepts, decoding what it encoded returns exactly those integers in order, whatever the codec encoded or decoded before. Integers inside the codec's documented range are always accepted when the destination has room; anything it cannot represent or fit is refused with an empty encoding, never truncated, and nothing is written past the destination. Where the byte format is defined, the bytes are that format; differences between neighbours are undone exactly.",
     ["inputs", "configurations"], "every list of integers, every codec, every destination size",
     "the unit tests encode a few fixed lists per codec; the rows, widths and word boundaries are far more than they sample",
     ["source/compress_integer_all.h", "source/compress_integer.h", "source/compress_integer_simple_9.cpp", "source/compress_integer_carryover_12.cpp", "source/compress_integer_variable_byte.cpp", "source/compress_integer_qmx_jass_v1.cpp"],
     [("one class per codec, reached through the option table", "source/compress_integer_all.h"), ("difference coding", "source/compress_integer.cpp")], ["the encoded bytes", "the decoded integers"],
     "Codec.tla: byte-level decoders for nineteen codecs and the obligations of all twenty-seven; Codec_MC writers exhaustively round-tripped and replayed; CodecTrace", note="SIMD formats without a written definition (Elias SIMD family, QMX, Carry-8b, Group Elias Gamma SIMD with variable byte) are judged by round trip and refusal only.")

prop("P12", "Heaps, beaps and top-k sorting keep their order and every element",
     "After every operation a heap (and a bi-parental heap) satisfies its order and holds exactly the elements it should: the old ones with the one replacement asked for. A search finds a key exactly when it is there, a bounded heap holds exactly the k largest elements ever inserted with its smallest in front, and a top-k sort puts the k smallest first in order and loses nothing.",
     ["inputs", "histories"], "every array, size, k and sequence of operations, with duplicates, absent keys and values that grow in place",
     "the unit tests use a few random arrays of distinct numbers and never look for what is not there",
     ["source/heap.h", "source/beap.h", "source/top_k_heap.h", "source/top_k_qsort.h"],
     [("sift down with a hole", "source/heap.h"), ("saddleback search and two-parent sift", "source/beap.h"), ("lazy ordering flags", "source/top_k_heap.h"), ("three-way partition that skips what is not needed", "source/top_k_qsort.h")],
     ["the array after each call", "what each call returns"],
     "Ordered.tla; Heaps_MC (the order is inductive over every small array), TopK_MC, behaviours replayed, StructsTrace",
     note="Inductive over every array of at most 9 (thorough: 10) elements; the real code on generated and random arrays up to 400 elements under an address checker.")
prop("P13", "A shared append-only array keeps every element, in order",
     "Whatever the interleaving of the threads appending to it, an append-only array ends up holding exactly the elements appended, each once, with an element whose append finished before another's began placed before it. Iterating, indexing, taking the last element and copying out (into a buffer of any size, which is never overrun) all show that same sequence.",
     ["schedules", "inputs", "configurations"], "every interleaving of appends, every initial size and growth factor",
     "the unit test appends from threads a few times and checks a count; interleavings are left to chance",
     ["source/dynamic_array.h"], [("compare-and-swap of the used count and of the next block", "source/dynamic_array.h")], ["the sequence seen once the writers are done"],
     "Shared.tla, Array_MC (every interleaving), SharedTrace (the real code under a controlled scheduler: all schedules up to a pre-emption bound, random ones, real threads)")
prop("P14", "Concurrent insertion into the term map loses and duplicates nothing",
     "Whatever the interleaving of the threads inserting keys into a binary tree or a hash table of them, every key inserted is there exactly once and no other, every insertion of the same key is given the same cell, and cells of different keys are different. Iterating shows every key with its cell, a tree in key order.",
     ["schedules", "inputs"], "every interleaving of insertions of any keys",
     "the unit tests insert from threads a few times and checksum the result",
     ["source/binary_tree.h", "source/hash_table.h", "source/hash_pearson.h"], [("compare-and-swap of the child pointer", "source/binary_tree.h"), ("compare-and-swap of the bucket's tree", "source/hash_table.h")],
     ["the cells returned and the final iteration"],
     "Shared.tla, Tree_MC (every interleaving), SharedTrace (controlled scheduler and real threads)")
prop("P15", "Allocated blocks never overlap, are aligned, and are accounted for",
     "Whatever the sizes, alignments and interleaving of requests, every block handed out by the pool and by the fixed-memory allocator lies inside memory the allocator owns, is aligned as asked, overlaps no other block, and keeps its contents until the allocator is rewound. The size and capacity reported agree with what was handed out.",
     ["schedules", "inputs"], "every interleaving of requests of every size and alignment",
     "the unit tests make a few requests on one thread",
     ["source/allocator_pool.h", "source/allocator_pool.cpp", "source/allocator_memory.h", "source/allocator.h"], [("compare-and-swap of the chunk's bump pointer and of the top chunk", "source/allocator_pool.cpp")],
     ["addresses returned", "bytes written to each block", "sizes reported"],
     "Shared.tla, Pool_MC (every interleaving, adversarial chunk addresses), SharedTrace (controlled scheduler and real threads)")
prop("P27", "Accumulators behave as an array of zeroes after every rewind",
     "Every accumulator strategy behaves exactly as a plain array that is set to zero at initialisation and at each rewind, for any number of rewinds, any width and any order of reads and writes, one at a time or eight or sixteen at once. Reading many elements through vector operations gives what reading them one by one would.",
     ["inputs", "histories", "configurations"], "every sequence of initialisations, writes, reads, gathers and rewinds, for each strategy, counter width and element type",
     "the unit tests touch some elements and rewind a few times; counter wrap and page edges are barely sampled",
     ["source/accumulator_2d.h", "source/accumulator_counter.h", "source/accumulator_counter_interleaved.h", "source/simd.h"],
     [("dirty page flags", "source/accumulator_2d.h"), ("query counters that wrap", "source/accumulator_counter.h"), ("vector gather and scatter", "source/simd.h")], ["the value returned by each call"],
     "Zeroed.tla, Accum_MC (exhaustive small runs of both schemes), behaviours replayed on all strategies, StructsTrace")
prop("P29", "Bit strings are sets of positions; bit streams return the bits pushed",
     "A bit string behaves as a set of positions below its length: setting, clearing, counting, finding the n-th, resizing and the Boolean operations give what the sets would, nothing beyond the length is ever counted, and the operands of any lengths are padded with zeros. A bit stream returns the bits pushed into it in order, accepts them whenever the destination has room, otherwise reports failure, and writes nothing past the destination.",
     ["inputs", "histories"], "every sequence of operations on strings of any lengths, and every sequence of bits and destination size",
     "the unit tests use three fixed strings that only grow",
     ["source/bitstring.h", "source/bitstring.cpp", "source/bitstream.h"], [("word-wise operations over padded storage", "source/bitstring.cpp"), ("word buffer of the stream", "source/bitstream.h")], ["results of each call and the bytes written"],
     "Bits.tla, Bits_MC (word storage beside the abstract set, exhaustive), behaviours replayed, StructsTrace")

prop("P16", "Splitting a stream into documents does not depend on buffering",
     "Whatever the sizes of the buffer and of the documents (as long as each fits), a stream of TREC, HTML, FASTA or WARC documents is split into exactly the documents it holds, in order, each with its whole contents and its own primary key with white space trimmed. Text outside documents is ignored, an unfinished last document is never half returned as a marked up document, nothing beyond the data is read, and the end stays the end.",
     ["inputs", "configurations"], "every text, every document size relative to the buffer, every position of the tags across buffer refills",
     "the unit tests split one fixed collection with one buffer size",
     ["source/instream_document_trec.cpp", "source/instream_document_html.h", "source/instream_document_fasta.cpp", "source/instream_document_warc.cpp", "source/document.h"],
     [("search, shift and refill of the buffer", "source/instream_document_trec.cpp"), ("line reader of the archive headers", "source/instream_document_warc.cpp")], ["the documents and keys read"],
     "Docs.tla, Docs_MC (the buffered machine refines the splitting of the whole text, exhaustive over short texts and buffer sizes), TextTrace",
     note="Exhaustive over texts of up to 5 (thorough: 6) tags and pieces and eleven buffer sizes; the real splitters on generated and random texts through several buffer sizes under an address checker.")
prop("P18", "A document is cut into maximal words, numbers and markup, and nothing else",
     "Tokenising any bytes returns the maximal runs of letters, case folded, and of digits, normalised; each piece of markup as one token with its own kind and text; and every other character on its own; in order, with white space only as a separator. Malformed encodings and unfinished markup never hide the valid text before them, over-long tokens keep as many whole characters as fit, and nothing outside the document influences its tokens.",
     ["inputs"], "every sequence of bytes, valid UTF-8 or not, and whatever follows it in memory",
     "the unit tests tokenise two fixed strings",
     ["source/parser.cpp", "source/parser.h", "source/unicode.h", "source/ascii.h"],
     [("one state per kind of token", "source/parser.cpp"), ("decoding", "source/unicode.h")], ["the token stream"],
     "Tokens.tla, Tokens_MC (soundness of the tokenisation over every short text), behaviours replayed, TextTrace")
prop("P19", "A sequence record yields its header's words and every k-mer, in order",
     "A FASTA record is tokenised into the tokens of its first line followed by every run of k consecutive bases, lower case, one starting at each base that has k bases from it on, ignoring white space and never spanning anything that is not a base. The k-mers can be indexed whatever the header holds, for every k, up to the very last base, and nothing beyond the record is read.",
     ["inputs", "configurations"], "every record and every k",
     "the unit test has one record and one k",
     ["source/parser_fasta.cpp", "source/parser_fasta.h", "source/instream_document_fasta.cpp"],
     [("sliding window", "source/parser_fasta.cpp")], ["the token stream", "the records read"],
     "Tokens.tla!FastaTokens, Docs.tla!Fasta, TextTrace")
prop("P20", "A weighted-vector document is read as exactly its terms and weights",
     "Reading an archive of documents with term-weight vectors, of any number and any size, returns each document with its identifier and exactly the text of its vector, whether or not the last line is terminated. Parsing a vector returns each term once in order, exactly as written, with its weight, limited to the largest impact; terms of zero weight are dropped and nothing is invented.",
     ["inputs"], "every archive in the uniCOIL layout, documents larger than the buffer included, and every vector",
     "the unit tests have two documents and two terms",
     ["source/instream_document_unicoil_json.cpp", "source/instream_document_unicoil_json.h", "source/parser_unicoil_json.h", "source/document.h"],
     [("growing buffer", "source/instream_document_unicoil_json.cpp"), ("string and number scanner", "source/parser_unicoil_json.h")], ["the documents read", "the token stream"],
     "Docs.tla!Coil, Tokens.tla!Vector, TextTrace")
prop("P21", "A query is parsed into each of its words once with its frequency",
     "Parsing a query returns each distinct word of it (a maximal run of letters, case folded, or of digits, normalised) exactly once with the number of times it occurs, whatever lies between the words, malformed bytes included. In raw mode the words are exactly what white space separates, unchanged. A parser that has parsed other queries parses the next one the same way, and a query's words are the words the same text has as a document.",
     ["inputs", "histories"], "every query text, one parser for any number of queries",
     "the unit tests parse a dozen fixed queries",
     ["source/parser_query.cpp", "source/parser_query.h", "source/query_term_list.h", "source/query_term.h"],
     [("scan and fold", "source/parser_query.cpp"), ("sort and count duplicates", "source/query_term_list.h")], ["the parsed terms"],
     "Tokens.tla!QueryOk, Tokens_MC!SameWords, TextTrace")
prop("P22", "Effectiveness scores follow the definitions of the measures",
     "For any judgements, prices, run and depth, each effectiveness measure (precision, recall, F, average precision, reciprocal rank, rank-biased precision, search length and the price-based ones) is the value its definition gives for that topic, where any judgement but zero counts as relevant. A topic without relevant documents never yields a score that is not a number. The evaluation tool prints these scores per topic, under the right names, and their averages over the topics.",
     ["inputs"], "every set of judgements, prices, run, depth and parameter",
     "the unit tests score one run of five documents with one relevant document",
     ["source/evaluate.h", "source/evaluate.cpp", "source/evaluate_precision.cpp", "source/evaluate_map.cpp", "source/evaluate_cheapest_precision.cpp", "source/evaluate_selling_power.cpp", "tools/JASS_eval.cpp"],
     [("find a judgement", "source/evaluate.h"), ("per topic evaluation and averages", "tools/JASS_eval.cpp")], ["every score", "the tool's report"],
     "Eval.tla, Eval_MC!Bounded/Perfect/Rewarded, EvalTrace")
prop("P36", "Correlation and significance of scores follow their definitions",
     "For any two lists of scores, the ranks (ties share the middle of their places), the Pearson and the Spearman correlation and the paired t-test's probability with one and two tails are the values their definitions give, to the precision printed. The evaluation tool's matrices hold these values for every pair of runs (over the topics both answered) and every pair of measures, in rows and columns under the right names, and mark what is undefined.",
     ["inputs"], "every two lists of scores, every set of runs and measures",
     "the unit test looks at one pair of lists",
     ["source/statistics.cpp", "source/statistics.h", "tools/JASS_eval.cpp"],
     [("distribution of t", "source/statistics.cpp"), ("ranks", "source/statistics.h"), ("matrices", "tools/JASS_eval.cpp")], ["every value", "the printed matrices"],
     "Stats.tla, Stats_MC!RanksOk/CorrelationLaws/TestLaws, StatsTrace",
     note="The normal approximation used from a thousand pairs on is not explored. If all differences are alike and not zero the probability may be 0 or undefined.")
prop("P37", "The conversion programs write exactly what their input says",
     "Converting priced documents and a matrix of judgements gives every price in the order of the file and every judgement once, ordered by query and document, 1 if relevant and 0 if judged otherwise; converting a matrix of results to a run gives for each query exactly the documents returned that the training matrix does not mention, cheapest first and then by number, ranked from 1 with descending scores, whatever numbers identify the documents and queries. Lists of integers in binary are printed one to a line with their lengths, and the Fletcher checksum of every file named is the one the definition gives.",
     ["inputs"], "every table of prices, matrices of judgements, results and training data, every file of lists, every file's bytes",
     "the programs have no unit tests; only the checksum has, on three strings",
     ["tools/ECOM19_to_JASS_eval.cpp", "tools/ECOM19_to_run.cpp", "tools/bin_to_human.cpp", "tools/hash.cpp", "source/checksum.cpp"],
     [("reading of the matrices", "tools/ECOM19_to_run.cpp"), ("table of judgements", "tools/ECOM19_to_JASS_eval.cpp")], ["the printed lines"],
     "Tools.tla, Tools_MC!Right/Known/Ends, ToolsTrace")
prop("P34", "Characters are classed and normalised as the Unicode database says",
     "For every code point, each character class (letter, digit, upper, lower, space, punctuation and so on) and the normalised form (full decomposition, case folding, then only letters and digits) are what the Unicode database supplied with the system defines. Every code point survives encoding to UTF-8 and decoding, in the shortest form, and decoding any bytes stays within them and yields a valid code point or the replacement character.",
     ["inputs"], "all 1,114,112 code points; every byte sequence",
     "the unit tests look at ASCII and a few characters",
     ["tools/unicode_database_to_c.cpp", "tools/ascii_database_to_c.cpp", "source/unicode.h", "source/ascii.h"],
     [("read the database", "tools/unicode_database_to_c.cpp"), ("UTF-8", "source/unicode.h")], ["class ranges", "normal forms", "encoded and decoded characters"],
     "Unicode.tla, Unicode_MC!RoundTrip/Local/Shortest, UnicodeTrace")
prop("P35", "Stemming follows the published rules for every word",
     "The stem of any word is what the rules of the Porter stemmer give, step by step: the longest applicable ending of each step is replaced when what precedes it is long enough. Stemming depends on nothing but the word, never lengthens it, and leaves no empty stem for a word the indexer stems.",
     ["inputs"], "every word of three bytes or more",
     "the unit test stems the seventy examples of the paper",
     ["source/stem_porter.cpp", "source/stem_porter.h", "source/stem.h"],
     [("suffix rules on the reversed word", "source/stem_porter.cpp")], ["the stem"],
     "Porter.tla, Porter_MC (the paper's examples and every short word over ten letters), behaviours replayed, TextTrace",
     note="'y' counts as a vowel unless it follows a, e, i, o or u (also at the start of a word) and *o may lack its first consonant, as this implementation has it; see DESIGN.md.")
prop("P17", "Every source of bytes hands over the same bytes however it is read",
     "A memory block, file, stream, gzip file (of any number of members) or directory of such files is a sequence of bytes; reading it in requests of any sizes hands over exactly those bytes in order, each request being answered in full unless the bytes have run out, after which it answers nothing. A damaged compressed file still hands over the bytes that precede the damage and then ends. A source lets go of everything it held when it is destroyed.",
     ["inputs", "histories"], "any content, number of files and members, order of requests",
     "unit tests read one small file in one or two requests",
     ["source/instream_memory.h", "source/instream_file.h", "source/instream_file_star.h", "source/instream_deflate.cpp", "source/instream_directory_iterator.h"],
     [("read", "source/instream.h"), ("inflate", "source/instream_deflate.cpp"), ("next file", "source/instream_directory_iterator.h")], ["bytes answered to each request", "memory kept afterwards"],
     "Files.tla SourceOk/DirectoryOk/DamagedOk, Files_MC!SourceSpec, FilesTrace")
prop("P25", "Files and channels keep exactly the bytes written, where they were written",
     "Whatever writes, reads, seeks and flushes a file sees and however large its buffer, its content, its size and its position are those of a plain array of bytes; reading, writing or mapping a whole file answers exactly its content and size (nothing for a missing or empty file or a directory). Text, numbers and lines sent down a channel arrive as exactly those characters, and are received back by count or by line.",
     ["histories", "inputs"], "every sequence of operations, buffer size and content",
     "unit tests write and read one file in one order",
     ["source/file.h", "source/file.cpp", "source/channel.h", "source/channel_file.h", "source/channel_buffer.h"],
     [("buffered write", "source/file.h"), ("whole files", "source/file.cpp"), ("send and receive", "source/channel_file.h")], ["content of files", "position and size", "bytes received"],
     "Files.tla WriteAt/ReadAt/Lines/HeardOk, Files_MC!Right/Told/Whole/Size, FilesTrace")
prop("P30", "Topics become one query each: the number and the words of the fields asked for",
     "From a file of topics in either layout in use (line oriented or fully marked up) a query line is made for each topic, in order, that consists of its number and the words and numbers of exactly the fields asked for. No topic is lost or runs into another, and a file without topics gives no query.",
     ["inputs"], "any text of topics, any choice of fields",
     "the unit test converts two topics of one layout",
     ["source/channel_trec.h", "source/channel_trec.cpp"],
     [("topic parser", "source/channel_trec.cpp")], ["query lines"],
     "Files.tla Topics (over Tokens.tla), FilesTrace",
     note="Topic numbers stand on the line of their tag; text between an end tag and the next start tag is not generated.")

prop("P31", "General compression gives back exactly the bytes it was given",
     "Whatever bytes are compressed, what the compressor made of them decompresses to exactly those bytes. Each operation says how many bytes it made, or none where the room given is too small or the piece is cut short; given ample room it always succeeds, and it always comes to an end. Nothing is written beyond the room given, and earlier operations with the same compressor have no influence.",
     ["inputs", "histories"], "any bytes, any room, pieces cut anywhere, any sequence of operations on one object",
     "the unit test compresses one text once (and that of the second compressor is never run)",
     ["source/compress_general.h", "source/compress_general_zlib.cpp", "source/compress_general_zstd.cpp"],
     [("encode and decode", "source/compress_general_zlib.cpp"), ("encode and decode", "source/compress_general_zstd.cpp")], ["sizes reported", "bytes decompressed", "memory beyond the room"],
     "General.tla EncodeOk/DecodeOk, General_MC!Owed/Lossless, GeneralTrace")
prop("P38", "Logarithms, first bits and square roots of integers are exact",
     "For every value of every unsigned width, the logarithm rounded down is the place of its highest set bit, the number of bits it needs is one more, and its first set bit is the place of its lowest (each 0 for 0). The square root of a value is rounded down.",
     ["inputs"], "every value of 8, 16, 32 and 64 bits",
     "the unit test looks at some twenty values, none of more than 32 bits with low bits clear",
     ["source/maths.h"],
     [("tables and shifts", "source/maths.h")], ["the numbers returned"],
     "Arithmetic.tla, Arithmetic_MC!Agree/Logs/Roots, ArithmeticTrace",
     note="Square roots are compared below 2^31.")

prop("P23", "The indexer turns a collection into the index that collection calls for",
     "The index that the program builds from a collection, in either format and whatever codec or option is chosen, holds one document for each document of the collection, in order and under its own key, and for each of them exactly the terms that tokenising (and, if asked for, stemming) yields. Each posting's impact is the quantised BM25 score (k1=0.9, b=0.4) computed from the counts in that collection, or the weight given when documents come as weighted vectors; the program reports the number of documents and terms it indexed.",
     ["inputs", "configurations"], "any collection of tagged documents, sequences or weighted vectors; any combination of the program's options",
     "no unit test runs the program; the parts are tested one by one on a sample of ten documents",
     ["tools/JASS_index.cpp", "tools/JASSv1_to_human.cpp", "source/ranking_function_atire_bm25.h", "source/quantize.h", "source/index_manager_sequential.h"],
     [("main loop", "tools/JASS_index.cpp"), ("dump", "tools/JASSv1_to_human.cpp"), ("scores", "source/ranking_function_atire_bm25.h")], ["index dump", "program output"],
     "Whole.tla (over Docs, Tokens, Porter, Bm25), Bm25_MC, WholeTrace",
     note="Impacts of scores closer than 2e-6 to a boundary of quantisation may fall on either side.")

prop("P24", "Importing an index of the common format yields exactly that index",
     "An index file of the common interchange format turns into an index with one document for each record, under its key and in the order of the file, and with exactly the terms and postings of the file. Impacts are the term counts themselves cut off at the largest impact, the counts quantised, or the quantised BM25 score (k1=0.9, b=0.4) over the lengths and the number of documents the file gives, as asked for. A file whose header, lists or records hold unknown fields, or whose documents are not in order, is refused.",
     ["inputs", "configurations"], "any file of the format: any order of fields within a message, any lengths, counts and keys; any of the modes and versions",
     "no test imports a file",
     ["tools/ciff_to_JASS.cpp", "tools/ciff_lin.h", "tools/protobuf.h", "source/quantize_none.h", "source/ranking_function_none.h", "source/quantize.h"],
     [("main loop", "tools/ciff_to_JASS.cpp"), ("format", "tools/ciff_lin.h"), ("numbers", "tools/protobuf.h")], ["index dump", "program output"],
     "Ciff.tla, Whole.tla Imported, WholeTrace",
     note="Not specified: truncated files, empty postings lists, documents without any length at all; if all scores are equal any impact is permitted.")

prop("P28", "A compiled index says the same as the index of the collection",
     "Compiling a collection into source code gives a program whose tables hold exactly the vocabulary of the collection in order, the key of each document under its number, and for every term a routine that adds exactly that term's impacts to exactly the documents that contain it. The generated code compiles and does so whatever the terms and keys are made of.",
     ["inputs", "configurations"], "any collection (every format), keys of any characters, every option that changes the postings",
     "the unit test compares check sums of the files of ten documents",
     ["source/serialise_ci.cpp", "source/serialise_ci.h", "tools/JASS_index.cpp", "compiled_index/JASS_vocabulary.h"],
     [("writer", "source/serialise_ci.cpp"), ("program", "tools/JASS_index.cpp")], ["the generated program, compiled and run against a recorder of the additions"],
     "Whole.tla Run/Rising/DumpOk, WholeTrace",
     note="Document numbers count from 1 and the first key is '-'. The search program for compiled indexes is not claimed (see DESIGN).")

prop("P32", "The search program writes for each query the ranking that the index gives it",
     "Given an index and a file of queries (one per line, or topics), the search program answers every query of the file once, under its own number, with lines that are numbered from 1 and name the right documents, ordered and bounded as the number of results, the limit on postings and the known scores given on its command line call for, whatever the number of threads and the page width. It reports how many queries and documents it saw and how many postings it processed, and without an index it says so and writes no ranking.",
     ["inputs", "configurations"], "any index, any query file, any combination of the program's options",
     "no test runs the program",
     ["anytime/JASS_anytime.cpp", "anytime/JASS_anytime_api.cpp", "source/run_export_trec.h", "source/channel_file.h", "source/channel_trec.h"],
     [("main", "anytime/JASS_anytime.cpp"), ("results", "anytime/JASS_anytime_result.h")], ["ranking file", "statistics file", "program output"],
     "Whole.tla RankingOk (over SearchContract, Tokens, Files), WholeTrace",
     note="Times in the statistics are not judged. An index without a single term may be refused. Fractions of postings are taken as whole percents.")

prop("P26", "A command line sets exactly the options it names, to exactly the values it gives",
     "Every argument of a command line is read as the option with the longest name that it starts with: its value is what follows the name, or the next argument, so each option keeps the last value given to it and an option that is not named keeps the one it had. A value is taken exactly or refused: one that is missing, out of the range of its type or no number is reported and changes nothing, as is an argument that is no option, and parsing succeeds just if nothing was reported; the help lists every option with its names in columns.",
     ["inputs", "configurations"], "any set of options of any types with any names, any list of arguments",
     "the unit test parses one command line of six options",
     ["source/commandline.h"],
     [("parser", "source/commandline.h")], ["variables after parsing", "messages", "usage text"],
     "Command.tla Parse/Usage, Command_MC, CommandTrace",
     note="Not specified: text after a whole number, words for whole numbers, text joined to an option that takes no value.")


def main():
    from_props = []
    import importlib
    for p in P:
        from_props.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                           "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                           "anchors": {"files": p["files"], "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                                       "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]], "observe_at": p["observe"], "hook_needed": p["hook"]}})
        assert len(p["title"]) <= 80, p["title"]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for x in from_props:
            f.write(json.dumps(x) + "\n")
    man = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, 'lib'); import vf\"",
           "hooks": {"guard": "JASS_VERIF_MAX_DOCUMENTS", "enable": "the checks compile /repo's sources with -DJASS_VERIF_MAX_DOCUMENTS=1048576",
                     "source_commits": ["a46769a"]},
           "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                       "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": "TLA+ specification checked with TLC; behaviours generated from it replayed into the real code, and traces recorded from the real code validated against it (" + p["spec"] + ")",
                       "level": p["level"],
                       "level_note": p["note"] or "Exhaustive on the bounded specification; the real code is judged by trace validation on generated and random behaviours."} for p in P],
           "not_applicable": [],
           "notes": "TLA+ with TLC; see DESIGN.md. known_findings.json lists findings and repaired defects."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(P), "properties")


if __name__ == "__main__":
    main()
