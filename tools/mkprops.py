#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The list below is the source of the file."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

I = ["inputs"]
prop("C01", "BWT is the correct, invertible transform of the terminated text",
 "For every byte text free of zero bytes, the BWT that `bwt` writes by default (and the library computes from a text ending in a zero terminator) is exactly the sequence of characters preceding the lexicographically sorted suffixes, cyclically; it is a permutation of the terminated text, and inverting it restores the text. Without terminator (`--no-dollar`) the same definition applies to the suffixes of the bare text. A text with a zero byte anywhere but in its last position is rejected instead of producing output.",
 I, "all byte strings without interior zero, of every length from 1 up to megabytes, every prefix length, debug and release builds",
 "Tests only count the runs of the BWT of seven Fibonacci words; no test compares a BWT with its definition, inverts it, uses bytes above 'b', repetitive, long or terminator-free input.",
 ["src/core.rs", "src/bin/bwt.rs"],
 [("suffix sort through the C library and gather of preceding characters", "src/core.rs bwt_from_text_by_sa"), ("zero-byte rejection", "src/core.rs bwt_from_text_by_sa"), ("terminator appended unless --no-dollar", "src/bin/bwt.rs main")],
 ["return value of the library call", "stdout / -o file and exit status of `bwt`"])
prop("C02", "Matrix BWT and smallest rotation are right for every text",
 "The matrix BWT (`bwt --use-matrix`, and both library versions of it) equals the last column of the sorted matrix of all rotations of the text, for primitive and non-primitive texts of every length and on every byte value, so all conjugates of a text have the same matrix BWT. The conjugate position the library reports starts a lexicographically smallest rotation. With the terminator, matrix BWT and suffix-array BWT coincide.",
 I, "all non-empty byte strings, in particular non-primitive ones and lengths on both sides of the length where the tool changes algorithm",
 "The tests compare the two versions on ~2000 short texts over {1,2} that are all prefixes of one generator; no other alphabet, no length near 100, no zero byte, no tool run.",
 ["src/core.rs", "src/bin/bwt.rs", "src/bin/count_r.rs"],
 [("naive rotation sort", "src/core.rs bwt_by_matrix_naive"), ("rotation to the Lyndon conjugate, then suffix sort", "src/core.rs bwt_by_matrix, lyndon_conjugate"), ("switch at length 100", "src/bin/bwt.rs, src/bin/count_r.rs main")],
 ["return values", "stdout of `bwt -u`, `bwt -u -n`"])
prop("C03", "Run counts are exact",
 "`count_runs` prints the number of maximal equal-byte runs of its input, 0 for empty input, and `count_r` reports exactly the number of runs of the BWT that `bwt` writes for the same input and the same options, together with the length of that BWT. Delivery of the bytes in chunks of any size does not change the count.",
 I + ["configurations"], "all byte strings, all option combinations of count_r (terminator or not, suffix-array or matrix), every chunking of the input stream",
 "count_runs and count_r have no test at all; the counting function is tested only on two-run BWTs.",
 ["src/core.rs", "src/bin/count_runs.rs", "src/bin/count_r.rs"],
 [("single-pass run counter over a byte stream", "src/core.rs number_of_runs"), ("BWT and run count", "src/bin/count_r.rs main")],
 ["stdout of count_runs and count_r", "return value over arbitrary readers"])
prop("C04", "Lyndon factorization is the unique one",
 "For every non-empty byte text the Lyndon factorization reported (by the library over any ordered alphabet, via Duval and via the inverse suffix array, and by `lyndonfactorization`) splits the whole text into Lyndon words in lexicographically non-increasing order. The tool's factor count, its `RUST_LOG=debug` listing of ending positions and its output file (each factor under its header; only a final factor consisting of a terminating zero byte may be left out) describe that same factorization.",
 I, "all non-empty byte strings and integer sequences; long runs, powers, decreasing and increasing texts, zero-terminated texts",
 "The test compares two functions of the same crate on short texts over {0,1,2}; neither the definition nor the tool's count, listing or output file is tested.",
 ["src/core.rs", "src/bin/lyndonfactorization.rs"],
 [("Duval's algorithm", "src/core.rs duval"), ("prefix minima of the inverse suffix array", "src/core.rs isa_lyndon_factorization"), ("count, listing and FASTA-like output", "src/bin/lyndonfactorization.rs main")],
 ["return values", "stdout, stderr (RUST_LOG=debug) and -o file"])
prop("C05", "Bijective BWT is a bijection",
 "The bijective BWT of every non-empty text is the last characters of all conjugates of its Lyndon factors sorted in infinite-power order: it is a permutation of the text's characters, distinct texts have distinct images, and the inverse bijective transform restores the text. On a Lyndon word it equals the matrix BWT.",
 I, "all non-empty strings over any ordered alphabet, including repeated and nested factors of different lengths",
 "The transform has no test at all.",
 ["src/core.rs"],
 [("conjugates of all Lyndon factors sorted by infinite-power comparison", "src/core.rs bbwt_naive")],
 ["return value"])
prop("C06", "Suffix array, inverse, phi, PLCP, LCP follow their definitions",
 "For every text the library's naive suffix array lists the suffixes in lexicographic order, the inverse permutation inverts any permutation, the phi array maps each suffix to its lexicographic predecessor (the smallest to the largest), and the BWT gathered from a suffix array is the preceding characters. PLCP and LCP values are the lengths of the longest common prefix of a suffix and its lexicographic predecessor, and 0 for the smallest suffix, which has none.",
 I, "all non-empty byte strings, with and without terminator, unary ones included, and every integer element type the functions accept",
 "These functions are only exercised indirectly through two other tests on short zero-terminated texts; none is compared with its definition and unterminated texts are never used.",
 ["src/core.rs"],
 [("Phi algorithm with carried-over match length", "src/core.rs compute_phi, compute_plcp, compute_lcp"), ("comparison sort of suffixes", "src/core.rs suffixarray_naive"), ("permutation inversion / gather", "src/core.rs inverse_permutation, bwt_from_sa")],
 ["return values"])
prop("C07", "Previous/next smaller value arrays are exact",
 "For every non-empty array the previous (next) smaller value array holds, at each position, the nearest position to the left (right) whose element is strictly smaller, and the designated invalid value where no such element exists.",
 I, "all non-empty arrays of any ordered type, with ties, plateaus, monotone and zig-zag shapes",
 "Only used inside the LZ77 test, on permutations (no ties) of fewer than 12 elements.",
 ["src/core.rs", "src/bin/count_z.rs"],
 [("pointer jumping over already computed entries", "src/core.rs compute_psv, compute_nsv")],
 ["return values"])
prop("C08", "Borders, smallest period and primitivity are exact",
 "For every text, entry i of the border array is the length of the longest proper border of the prefix of length i (0 for the two shortest prefixes), the smallest period derived from it is the least p such that characters p apart always agree, and a text is reported primitive exactly if it is not a power of a shorter text.",
 I, "all strings over any alphabet, especially periodic ones, powers, and powers with one mutation",
 "The tests check that reported borders and periods are some border/period of texts over {0,1,2} that end in a unique byte (so the full text is unbordered); never that they are the longest/smallest; primitivity is untested.",
 ["src/core.rs"],
 [("failure-function computation shifted by one", "src/core.rs border_array"), ("period from last border; divisibility", "src/core.rs smallest_period, is_primitive")],
 ["return values"])
prop("C09", "LZ77 factorization is greedy, self-referential and decodable",
 "For every non-empty byte text, `count_z` counts the factors of the greedy left-to-right LZ77 factorization with overlaps: each factor is a single fresh character or the longest prefix of the remaining text that also occurs starting at an earlier position. The factor file written with `-o` contains exactly these factors as (distance,length) pairs, or (character,0) for a fresh character, and decoding it restores the text.",
 I, "all non-empty byte strings incl. zero bytes, runs, self-overlapping repeats, texts up to megabytes, debug and release builds",
 "The test checks that decoding restores 2047 texts over {0,1,2} of length at most 11; not greediness or factor count, not the file, no longer or larger-alphabet text, no release build.",
 ["src/bin/count_z.rs", "src/core.rs"],
 [("longest previous factor from PSV/NSV and LCP range minimum", "src/bin/count_z.rs compute_lz77"), ("factor file", "src/bin/count_z.rs main")],
 ["stdout and -o file of `count_z`"])
prop("C10", "Lexparse is the phi-greedy parse and decodable",
 "For every non-empty byte text, `count_lexparse` counts the phrases of the lexparse: at text position i the phrase is the longest common prefix of the suffix at i and its lexicographic predecessor suffix, or a single explicit character where that length is 0 or there is no predecessor. The factor file lists exactly these phrases as (source position,length) or (character,0), and the text can be restored from it alone.",
 I, "all non-empty byte strings, with and without terminator, unary ones included",
 "count_lexparse has no test.",
 ["src/bin/count_lexparse.rs", "src/core.rs"],
 [("parse driven by PLCP and phi", "src/bin/count_lexparse.rs compute_lexparse"), ("PLCP of the smallest suffix", "src/core.rs compute_plcp")],
 ["stdout and -o file of `count_lexparse`"])
prop("C11", "mus lists exactly the minimal unique substrings",
 "For every byte text free of zero bytes (a zero byte at the very end is taken as the terminator and is not part of the text), `mus` reports, in order of starting position, exactly the pairs (start, length) of substrings that occur once in the text and all of whose proper substrings occur at least twice.",
 I, "all zero-free byte strings, with or without a terminating zero byte, empty and one-character texts included",
 "The test runs on twelve terminated Fibonacci words, all with two MUSs in known places; unterminated input, other alphabets and MUSs touching the end of the text are untested.",
 ["src/bin/mus.rs"],
 [("shortest unique prefix lengths from neighbouring LCP values", "src/bin/mus.rs get_mus"), ("terminator supplied when absent", "src/bin/mus.rs main")],
 ["stdout of `mus`"])
prop("C12", "Empirical entropy tools compute H_k and agree",
 "For every zero-free byte text and order k, `entropy` reports the k-th order empirical entropy of the text followed by one terminator: the sum over all contexts of length k of the zeroth-order information of the characters following them, divided by the length (k=0: plain zeroth-order entropy). `entropy_kmer` reports the same value for every k from 1 to 7. Values are accurate to floating-point rounding and never NaN or infinite.",
 I, "all zero-free byte strings incl. empty and shorter than k, all k (1..7 for the k-mer tool), all byte values",
 "The tests cover unary and (ab)^n texts of length 17..45 only, where every context but one is deterministic; agreement of the two tools and larger alphabets are untested.",
 ["src/bin/entropy.rs", "src/bin/entropy_kmer.rs", "src/core.rs"],
 [("LCP blocks as contexts", "src/bin/entropy.rs kth_order_entropy"), ("k-mer and (k+1)-mer hash counting", "src/bin/entropy_kmer.rs entropy_via_kmer_counting")],
 ["stdout of both tools"])
prop("C13", "String attractor decisions are right and witnessed",
 "For every non-empty zero-free byte text and every set of positions in it, `is_stringattractor` prints `valid attractor` and exits 0 exactly if every distinct substring has an occurrence containing a position of the set, and otherwise prints `not a valid attractor` and exits 2. Every substring it prints as not covered occurs in the text (the terminating zero byte the tool appends counts as uncovered) and indeed has no occurrence crossing the set, and at least one substring of the text is printed when the verdict is negative.",
 I, "all zero-free texts (any byte values), all position sets incl. empty, singleton, full, unsorted and with duplicates",
 "The tests feed only valid attractors of two word families; a checker that always answers yes passes them. Negative answers, witnesses, exit codes and non-ASCII text are untested.",
 ["src/bin/is_stringattractor.rs"],
 [("suffix-tree edges from LCP intervals", "src/bin/is_stringattractor.rs lcp_intervals"), ("distance-to-next-position range minimum per edge", "src/bin/is_stringattractor.rs is_attractor")],
 ["stdout and exit status"])
prop("C14", "Escaping is lossless, removes the given bytes, and is invertible",
 "For every byte string and every escape symbol with equally long, mutually disjoint lists of from- and (distinct) to-symbols, `escape` writes an encoding of the whole input (or of its first p bytes when a prefix length p is given) in which no from-symbol occurs: the escape symbol is doubled, each from-symbol becomes the escape symbol followed by its to-symbol, all else is unchanged. `escape --is-reversion` with the same symbols restores the input (a prefix length given to the reversion counts restored bytes). Lists may be given comma-separated or by repeating the option.",
 I + ["configurations"], "all byte strings, all admissible symbol sets and prefix lengths",
 "escape has no test.",
 ["src/bin/escape.rs", "src/io.rs"],
 [("byte-wise mapping with escape", "src/bin/escape.rs main"), ("inverse mapping", "src/bin/escape.rs main"), ("prefix length 0 means everything", "src/bin/escape.rs main")],
 ["stdout / -o file and exit status"])
prop("C15", "Move-to-front coding is total, exact and invertible",
 "For every byte string over all 256 byte values, `mtf` writes one byte per input byte: the current index of that byte in a list that initially holds 0..255 in order and from which each coded byte is moved to the front. Decoding by the inverse procedure restores the input.",
 I, "all byte strings, all 256 byte values, any chunking",
 "The test covers five texts over {a,b} of length at most 4.",
 ["src/bin/mtf.rs"],
 [("list update", "src/bin/mtf.rs mtf")],
 ["stdout / -o file of `mtf`"])
prop("C16", "Run-length encodings are exact and decodable in all modes",
 "For every byte string `rle` writes pairs (byte, count-1) in order whose expansion is the input, with maximal runs except that runs longer than 256 are split into several pairs; with `--human` it writes `(c,n)` for every maximal run with its exact length n, however long; with `--onlyzero` only runs of the digit `0` are encoded, as `0` followed by (count-1), again split beyond 256, and every other byte is copied verbatim. No input byte is ever lost, and empty input gives empty output.",
 I, "all byte strings, in particular run lengths around 255/256/257/512 and runs at the start and end, all three modes",
 "rle has no test.",
 ["src/bin/rle.rs"],
 [("pair encoder", "src/bin/rle.rs rle"), ("text encoder", "src/bin/rle.rs rle_text"), ("zero-run encoder", "src/bin/rle.rs rle_zero")],
 ["stdout / -o file of `rle`"])
prop("C17", "reverse and count_sigma are exact on all bytes",
 "For every byte string `reverse` writes exactly the bytes of its input in reverse order (so reversing twice is the identity), and `count_sigma` reports exactly the number of distinct byte values in it, from 0 to 256, and its length.",
 I, "all byte strings incl. empty, binary, using all 256 values, and every prefix length",
 "reverse has no test; count_sigma is tested on four strings of length at most 3.",
 ["src/bin/reverse.rs", "src/bin/count_sigma.rs"],
 [("in-place reversal", "src/bin/reverse.rs main"), ("first-occurrence table", "src/bin/count_sigma.rs count_sigma")],
 ["stdout / -o file"])
prop("C18", "Morphic words are the k-th iterates of their morphisms",
 "For every order k, the generators for Fibonacci, Tribonacci, Thue-Morse, period-doubling and the ternary Thue-Morse variant return exactly the k-th iterate, on `a`, of their defining morphism, each being a prefix of the next; the k-th Fibonacci Lyndon factor is the k-th factor in the Lyndon factorization of the infinite Fibonacci word. The Fibonacci and Tribonacci numbers returned equal the lengths of the respective words and satisfy their recurrences as far as they fit the integer type. `word -n NAME -k K` writes exactly that word. An order whose word is too long to exist in memory is refused, never answered with a shorter word.",
 I, "every word family and every order whose word fits in memory",
 "Tests spell out the first few words (k at most 6) and compare self-referentially up to k=10; larger orders, Fibonacci Lyndon factors beyond k=2, and the tool are untested.",
 ["src/word.rs", "src/bin/word.rs"],
 [("in-place morphism iteration", "src/word.rs fibonacci_word, iterate_2morphism, iterate_general_morphism, iterate_general_morphism_with_startsymbol"), ("doubling", "src/word.rs thuemorse_word"), ("recurrences", "src/word.rs fibonacci_number, tribonacci_number")],
 ["return values", "stdout of `word`"])
prop("C19", "Paperfolding, Kolakoski and power-of-two words match definitions",
 "For every order k: the paperfolding word has length 2^(k+1) and its i-th bit (from 1) is 1 exactly if the odd part of i is 1 mod 4, the quaternary word being its pairing; the Kolakoski word is a prefix of the sequence over {b=2,a=1} that starts with bb and is its own run-length sequence, of the length obtained by k rounds of expansion; the power-of-two word has length 2^k with `b` exactly at the positions (from 1) that are powers of two and `a` elsewhere. An order whose word is too long to exist in memory is refused, never answered with a shorter word.",
 I, "every order whose word fits in memory",
 "Tests compare with at most 109 characters of a table; the power-of-two word has no test.",
 ["src/word.rs", "src/bin/word.rs"],
 [("in-place quaternary substitution and unpacking", "src/word.rs quaternary_paperfolding_word, paperfolding_word"), ("self-describing expansion", "src/word.rs kolakoski_word"), ("bit tests", "src/word.rs power2_sequence")],
 ["return values", "stdout of `word`"])
prop("C20", "De Bruijn words are de Bruijn; prenecklace test is exact",
 "For every order k the binary de Bruijn word has length 2^(k+1) and, read cyclically, contains every binary word of length k+1 exactly once. The library's necklace test accepts exactly the prefixes of necklaces, i.e. words that can be extended to a word that is smallest among its rotations.",
 I, "every order k, and all words for the necklace test",
 "The test only checks that length-(k+1) windows are distinct, which truncated sequences also satisfy, for k from 2 to 9; the necklace test is tested on twelve words.",
 ["src/word.rs", "src/bin/word.rs"],
 [("successor rule with necklace test", "src/word.rs binary_debruijn_word, is_necklace")],
 ["return values", "stdout of `word -n binary-de-brujin`"])
prop("C21", "Enumerators yield every object exactly once, in order",
 "`lyndonwords` lists exactly the Lyndon words of length at most n over the first s letters, each once, in lexicographic order; the binary string generator yields each of the 2^n strings once, in lexicographic order, and then ends; the conjugate iterator yields all n rotations in order; `enumerate` prints all strings of each requested length once in lexicographic order; `generator_kmer` prints every length-8 string over a..d exactly once. An exhausted iterator stays exhausted.",
 I + ["configurations"], "all lengths and alphabet sizes the tools accept",
 "None of these enumerators has a test.",
 ["src/core.rs", "src/bin/lyndonwords.rs", "src/bin/enumerate.rs", "src/bin/generator_kmer.rs"],
 [("Duval's generation", "src/core.rs LyndonWordGenerator"), ("counter", "src/core.rs BinaryStringGenerator, src/bin/enumerate.rs enumerate_for_length"), ("rotation", "src/core.rs ConjugateIterator"), ("coroutine", "src/bin/generator_kmer.rs main")],
 ["iterator items", "stdout of the tools"])
prop("C22", "Random strings have the requested length and alphabet bound",
 "`randomstring` writes exactly the requested number of alphanumeric characters using at most the requested number of distinct ones (no bound when 0 is given), and always terminates; with enough characters it uses the full requested alphabet, and independent runs differ.",
 ["inputs", "configurations", "histories"], "all lengths and alphabet sizes, over many independent runs",
 "randomstring has no test, and its output is random, so no fixed expectation can settle it.",
 ["src/bin/randomstring.rs"],
 [("rejection sampling once the alphabet is full", "src/bin/randomstring.rs main")],
 ["stdout / -o file"])
prop("C23", "Result depends only on the input bytes, not on how they arrive",
 "For every tool, reading the same bytes from a named file, standard input, a pipe in arbitrary chunks, or a FIFO or device path gives the same result, and giving a prefix length p (0 meaning everything) gives the result of the tool on the first min(p, size) bytes, whichever the channel (`escape --is-reversion` aside, where p counts restored bytes).",
 I + ["configurations", "schedules"], "all tools, inputs, prefix lengths below, at and above the input size, and chunkings/timings of delivery",
 "No test exercises the input layer at all.",
 ["src/io.rs", "src/bin/escape.rs"],
 [("bounded read from file or stdin", "src/io.rs file2byte_vector, stdin2byte_vector, file_or_stdin2byte_vector"), ("streaming readers", "src/io.rs stream_or_stdin, read_char")],
 ["stdout and exit status of every tool"])
prop("C24", "A tool that exits successfully processed and delivered everything",
 "Under any sequence of interrupted system calls and short reads or writes every tool produces its normal result. When a read of the input or a write of the output fails for good (I/O error, full disk) at any point, the tool exits with a failure status; exit status 0 implies that the output is complete and is that of the complete input.",
 ["fault_sequences", "inputs"], "every position at which a read or write can be interrupted, shortened or fail, for every tool and output channel",
 "No test injects an I/O fault.",
 ["src/io.rs", "src/core.rs", "src/bin/mtf.rs", "src/bin/rle.rs", "src/bin/escape.rs", "src/bin/word.rs", "src/bin/lyndonfactorization.rs"],
 [("byte reader distinguishing end of file from errors", "src/io.rs read_char"), ("explicit flush of buffered output", "src/bin/*.rs"), ("write_all / read_to_end", "src/io.rs, src/bin/*.rs")],
 ["exit status, stdout and -o file under injected faults"])
prop("C25", "RESULT lines are well-formed and truthful",
 "Each analytic tool (count_r, count_sigma, count_z, count_lexparse, entropy, entropy_kmer, lyndonfactorization, mus) prints, for every valid input, exactly one line on standard output, starting with `RESULT` and made of distinct key=value fields, whose length field is the number of bytes processed (including the terminator where the tool appends one for the reported quantity: count_r, entropy, entropy_kmer), whose file/input field is the given file name or `none`, and whose time field is a non-negative integer.",
 I + ["configurations"], "all analytic tools, inputs, prefix lengths and channels",
 "No test runs a tool's main function.",
 ["src/bin/count_r.rs", "src/bin/count_sigma.rs", "src/bin/count_z.rs", "src/bin/count_lexparse.rs", "src/bin/entropy.rs", "src/bin/entropy_kmer.rs", "src/bin/lyndonfactorization.rs", "src/bin/mus.rs"],
 [("RESULT line formatting", "src/bin/*.rs main")],
 ["stdout"])
prop("C26", "No memory error or undefined behaviour on any input",
 "On every input, valid or not, the library and the tools perform no out-of-bounds, use-after-free or misaligned access, read or output no uninitialised memory, leak nothing across calls to the C suffix sorter, and invoke no undefined behaviour; misuse ends in a controlled failure.",
 I, "all inputs incl. hostile and degenerate ones, across the foreign-function boundary and in every unsafe block",
 "Tests run uninstrumented: a memory error that does not change a compared value is invisible to them.",
 ["src/word.rs", "src/core.rs", "src/bin"],
 [("unsafe length change", "src/word.rs kolakoski_word"), ("calls into the C suffix sorter with caller-sized buffers", "src/core.rs bwt_from_text_by_sa, src/bin/*.rs"), ("coroutine stacks", "src/bin/generator_kmer.rs, src/bin/enumerate_lexparse.rs")],
 ["sanitizer / interpreter / memcheck reports"])
prop("C27", "Calls are pure: deterministic, independent, and thread-safe",
 "The result of a library call or tool run depends only on its arguments and input: repeating it, interleaving it with other calls, running it concurrently on several threads, or changing environment and logging level never changes the result, and concurrent use involves no data race. A word generator shared between threads under a lock yields every word exactly once.",
 ["schedules", "histories", "inputs"], "all call sequences and all interleavings of concurrent calls",
 "Tests call each function in one order, each from a single test thread, and never compare repeated or concurrent results.",
 ["src/core.rs", "src/word.rs", "src/unfinished/parallel.rs"],
 [("absence of shared mutable state", "src/core.rs, src/word.rs"), ("iterator state private to the generator", "src/core.rs LyndonWordGenerator")],
 ["recorded call history (thread, call, arguments, result)", "race detector reports", "stdout of repeated runs"])
prop("C28", "The escape / bwt / mtf / rle pipeline is lossless end to end",
 "For arbitrary binary data, piping it through `escape` (removing zero bytes), `bwt`, `mtf` and `rle` yields data from which the original is restored exactly by the inverse steps, and at each stage the run counts reported by `count_r` and `count_runs` agree; `escape | count_r` therefore works on any input as the documentation promises.",
 I + ["configurations"], "all byte strings incl. zero bytes, long runs and all 256 values; any subset of the stages",
 "No test connects two tools.",
 ["src/bin/escape.rs", "src/bin/bwt.rs", "src/bin/mtf.rs", "src/bin/rle.rs", "src/bin/count_r.rs", "src/bin/count_runs.rs"],
 [("stdin/stdout composition of the transforms", "src/bin/*.rs")],
 ["stdout of each stage of a pipeline of the real tools"])
prop("C29", "Lexparse search reports true, monotone records",
 "Every line `enumerate_lexparse` prints gives a distance and two texts that are relabelings of one binary text by permuting its letters (terminated by a zero byte), whose lexparse sizes differ by exactly that distance; printed distances never decrease, texts are visited in enumeration order, and no text whose difference reaches the current record is skipped.",
 ["histories", "inputs"], "every prefix of the (practically endless) enumeration",
 "The program has no test and never finishes in practice; only an observer of its output can judge it.",
 ["src/bin/enumerate_lexparse.rs", "src/core.rs"],
 [("coroutine enumeration, permutation of letters, record keeping", "src/bin/enumerate_lexparse.rs main")],
 ["stdout stream"])
prop("C30", "Debug and release builds behave identically",
 "For every tool and every input and option combination within its documented domain, a debug build and a release build produce identical standard output (up to timings) and output files and the same exit status; in particular no release build returns a wrapped-around or silently wrong result where a debug build stops.",
 I + ["configurations"], "all tools, inputs and options, two build profiles",
 "The test suite runs in the debug profile only, with overflow checks and debug assertions on.",
 ["src/bin", "src/core.rs", "src/word.rs"],
 [("integer widths wide enough for every input", "src/bin/*.rs, src/core.rs"), ("checks that matter are assertions in both profiles", "src/core.rs")],
 ["stdout, files, exit status of both builds"])
prop("C31", "Output goes only, and completely, to the requested place",
 "For every tool with an output-file option, the file named receives exactly what standard output would have received (for analytic tools: the factor list), replacing any previous content entirely, and standard output then carries none of it. No tool run modifies its input file, creates or changes any other file, or lets logging output reach standard output or the output file.",
 I + ["configurations"], "all tools with -o, any previous content of the output file, any logging level",
 "No test uses an output file.",
 ["src/io.rs", "src/bin"],
 [("create-and-truncate of the output file", "src/io.rs stream_or_stdout"), ("log records to stderr", "src/bin/*.rs")],
 ["scratch directory before and after a run", "stdout"])
prop("C32", "Inputs outside the domain are refused, not answered",
 "A tool given arguments or input outside its stated domain (unreadable input file, from/to lists of different length or overlapping or containing the escape symbol, an undecodable escape sequence, k-mer order outside 1..7, attractor position beyond the text, alphabet outside 1..26 or bad lengths for `enumerate`, alphabet outside 1..159 for `lyndonwords`, `word` orders whose word could not be addressed, zero byte inside a text whose suffix-array BWT or suffix-based (k at least 1) entropy is requested, malformed options) exits with a failure status and, undecodable escape sequences aside, which are only met while streaming, writes no result.",
 I + ["configurations"], "all invalid argument combinations and inputs of the listed kinds, both build profiles",
 "No test feeds invalid input to a tool.",
 ["src/bin/escape.rs", "src/bin/entropy_kmer.rs", "src/bin/entropy.rs", "src/bin/is_stringattractor.rs", "src/bin/enumerate.rs", "src/core.rs", "src/io.rs"],
 [("assertions on arguments and input", "src/bin/*.rs main, src/core.rs bwt_from_text_by_sa")],
 ["exit status, stdout, -o file"])
P.append({'id': 'C33', 'title': 'Work grows in proportion to the text', 'statement': "The analysing and transforming tools whose algorithms are (near-)linear (bwt by suffix array and the bijective variant, count_r, count_runs, count_z, count_lexparse, count_sigma, entropy, entropy_kmer, escape, lyndonfactorization, mtf, mus, reverse, rle; not the variants announced as naive or matrix-based, nor is_stringattractor, whose listing is quadratic) and the corresponding library functions (suffix-array inversion, phi, PLCP and LCP arrays, psv/nsv, Duval's and the inverse-suffix-array Lyndon factorization, border array, smallest period, primitivity, BWT from the suffix array, Lyndon conjugate, run counting) perform a number of steps proportional to the text length, up to a logarithmic factor, on every text however repetitive or adversarial; the word generators and the enumerators perform a number of steps proportional to their output.", 'quantifier': {'over': ['inputs', 'configurations'], 'text': 'all texts, long ones in particular, all tools and options listed'}, 'why_tests_cant': 'The tests assert results on short texts and never observe the work done; a quadratic algorithm passes all of them.', 'anchors': {'files': ['src/core.rs', 'src/word.rs', 'src/bin'], 'mechanism': [{'name': 'amortized loops (PLCP by phi, psv/nsv by pointer jumping, Duval, border array, smallest-missing-symbol scans)', 'where': 'src/core.rs'}, {'name': 'single pass over the input, buffered', 'where': 'src/bin/*.rs, src/io.rs'}], 'observe_at': ['number of executed instructions of the release builds and of library calls'], 'hook_needed': None}})
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=True) + "\n")
print(len(P))
