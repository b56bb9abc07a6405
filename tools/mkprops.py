#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept in step by hand: edit P below, run this)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
               "observe_at": observe, "hook_needed": hook}
    if state: anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": anchors})

VEC = "Published vectors sample a few dozen messages; a slip tied to one padding length, carry or byte position agrees with all of them."

# ---- digests
p("D01", "SHA-1 and SHA-2 digests equal FIPS 180-4 for every message",
  "For every message, each of SHA-1, SHA-224, SHA-256, SHA-384, SHA-512, SHA-512/224 and SHA-512/256 returns exactly the digest FIPS 180-4 defines. This includes every message length around the padding and block boundaries.",
  ["inputs"], "for every message content at each length, for each algorithm", VEC,
  ["mbo/digest/digest_sha1.h", "mbo/digest/digest_sha256.h", "mbo/digest/digest_sha512.h"],
  [("block compression", "digest_sha256.h/digest_sha512.h/digest_sha1.h process-block"), ("padding and length", "stream finalize in the same headers")],
  ["mbo::digest::sha1::Digest", "mbo::digest::sha256::Digest", "mbo::digest::sha512::Digest and siblings"])
p("D02", "SHA-3 and SHAKE outputs equal FIPS 202 for every message and output length",
  "For every message, SHA3-224/256/384/512 and SHAKE128/SHAKE256 return exactly what FIPS 202 defines, including at every length around the sponge rate. SHAKE outputs of different lengths are prefixes of one another.",
  ["inputs"], "for every message content at each length and each output size", VEC,
  ["mbo/digest/digest_sha3.h", "mbo/digest/digest_shake.h"],
  [("Keccak-f permutation", "digest_sha3.h"), ("padding and squeeze", "digest_sha3.h, digest_shake.h")],
  ["mbo::digest::sha3_256::Digest and siblings", "mbo::digest::shake128::Digest<N>"])
p("D03", "MD5 digests equal RFC 1321 for every message",
  "For every message, the MD5 digest equals the value RFC 1321 defines, at every length around the padding and block boundaries.",
  ["inputs"], "for every message content at each length", VEC,
  ["mbo/digest/digest_md5.h"], [("block compression, padding", "digest_md5.h")], ["mbo::digest::md5::Digest"])
p("D04", "BLAKE2b, plain and keyed, equals RFC 7693 for every message and key",
  "For every message, BLAKE2b (512 and 256 bit) equals RFC 7693, and the keyed form equals RFC 7693 keyed hashing for every key of 0 to 64 bytes. An exactly full final block is compressed as the last block, not followed by an empty one.",
  ["inputs"], "for every message and key content at each pair of lengths", VEC,
  ["mbo/digest/digest_blake2b.h"], [("compression, final-block flag, keyed init", "digest_blake2b.h")],
  ["mbo::digest::blake2b::Digest", "blake2b::Algorithm::DigestKeyed", "StreamInitKeyed"])
p("D05", "BLAKE3 hash, keyed hash, key derivation and XOF equal the BLAKE3 spec",
  "For every message, key and context, BLAKE3 in hash, keyed and derive-key mode returns the value the BLAKE3 specification defines, at every chunk and subtree boundary. Extended outputs of different lengths are prefixes of one another.",
  ["inputs"], "for every message, key and context content at each length and output size", VEC,
  ["mbo/digest/digest_blake3.h"], [("compression, chunk chaining, tree merge, root output", "digest_blake3.h")],
  ["mbo::digest::blake3::Digest", "DigestKeyed", "DigestXof<N>", "DeriveKey<N>"])
p("D06", "Incremental digesting equals one-shot digesting for every chunking",
  "For every digest algorithm and every way of cutting a message into consecutive pieces (including empty ones), feeding the pieces incrementally gives the one-shot digest. Reading the digest in the middle gives the digest of the bytes so far and does not disturb what follows.",
  ["inputs", "histories"], "for every message content and every split into pieces, with a finalize in between",
  "Tests feed a few fixed chunkings; buffering bugs need one specific alignment of piece boundary and block boundary.",
  ["mbo/digest/digest.h", "mbo/digest/digest_sha256.h", "mbo/digest/digest_sha512.h", "mbo/digest/digest_sha3.h", "mbo/digest/digest_blake2b.h", "mbo/digest/digest_blake3.h", "mbo/digest/digest_md5.h", "mbo/digest/digest_sha1.h"],
  [("Streamer", "mbo/digest/digest.h"), ("per-algorithm StreamUpdate buffering", "digest_*.h")],
  ["mbo::digest::Streamer<Algo>::Update/Finalize"],
  [("stream state", "partial block, chaining value, total length", "digest_*.h StreamState")])
p("D07", "HMAC equals RFC 2104 for every key and message, one-shot and incremental",
  "For every key of any length and every message, the HMAC over each streaming digest equals RFC 2104: keys longer than the block are hashed first, shorter keys are zero padded. The incremental form gives the same value for every chunking.",
  ["inputs"], "for every key and message content at each pair of lengths", VEC,
  ["mbo/digest/digest_hmac.h"], [("key preparation, inner and outer pass", "digest_hmac.h")], ["mbo::digest::Hmac<Algo>", "mbo::digest::HmacStreamer<Algo>"])
p("D08", "Digests evaluated at compile time equal the run-time values",
  "For every message, each digest evaluated as a constant expression equals the digest computed at run time.",
  ["inputs"], "for every message content at each length, for each algorithm",
  "The two evaluation paths load and store bytes differently; tests compare them on a few literals only.",
  ["mbo/digest", "mbo/hash/hash_internal_util.h"], [("constant-evaluation branches", "hash_internal_util.h Load*, digest_*.h")],
  ["<algo>::Digest in constant evaluation"])
p("D09", "Checksum lines: parsing recovers digest and file name; hex round-trips",
  "For every digest text of the expected length and every non-empty file name, the checksum-tool line made of them (text or binary mode) parses back to exactly that digest text and file name, and every line not of that form is rejected. The hex rendering of a digest is two lowercase hex digits per byte, in order.",
  ["inputs"], "for every line content up to a length bound",
  "Short lines, odd separators and non-hex characters at every position interact; tests pin a handful of lines.",
  ["mbo/digest/checksum.cc", "mbo/digest/checksum.h", "mbo/digest/digest.h"],
  [("ParseChecksumLine", "checksum.cc"), ("ToHexString", "digest.h")], ["ParseChecksumLine", "ToHexString"])
p("D10", "The digest tool prints and verifies exactly the digests of readable files",
  "For every algorithm, flag combination, file content and checksum file, the digest tool prints the digest and name of each file it can read in full and reports every other file; its check mode reports a listed file as OK exactly when it can be read in full and its digest is the listed one in either case, and the exit code is 0 exactly when nothing failed as documented for the flags. Its check mode accepts what it printed.",
  ["inputs", "faults"], "for every content, checksum file and readable, unreadable or partly readable file within the bounds",
  "A file that opens but cannot be read, a buffer boundary, a malformed line and the flags interact; the command line tests try a few healthy files.",
  ["mbo/digest/digest_main.cc", "mbo/digest/checksum.cc"],
  [("CheckStream, RunCheck, Run", "digest_main.cc")], ["the tool's main(): exit code, standard output and standard error"])
# ---- hashes
p("H01", "Hashes with a published definition return the published values",
  "For every byte string and seed, xxh64, xxh3 (64 and 128 bit), rapidhash, murmur3 (128 bit), SipHash-2-4/1-3 and FNV-1a return exactly what their published reference definitions return.",
  ["inputs"], "for every content and seed at each length",
  "Length-dependent code paths (tails, overlapping reads, stripe loops) are sampled by a few vectors with fixed seeds.",
  ["mbo/hash/hash_xxh64.h", "mbo/hash/hash_xxh3.h", "mbo/hash/hash_rapidhash.h", "mbo/hash/hash_murmur3.h", "mbo/hash/hash_siphash.h", "mbo/hash/hash_fnv1a.h"],
  [("per-length-class code paths", "the listed headers")], ["<algo>::GetHash64/GetHash128(data, seed)"])
p("H02", "Incremental hashing equals one-shot hashing for every chunking",
  "For every streaming hash (mumbo, xxh64, SipHash), every seed and every way of cutting the input into pieces, the incremental value equals the one-shot value. Reading the value early does not disturb later updates.",
  ["inputs", "histories"], "for every content, seed and split into pieces",
  "Buffer refill paths need one specific combination of pending bytes and piece size.",
  ["mbo/hash/hash_mumbo.h", "mbo/hash/hash_xxh64.h", "mbo/hash/hash_siphash.h", "mbo/hash/hash.h"],
  [("StreamUpdate buffering", "hash_mumbo.h, hash_xxh64.h, hash_siphash.h")], ["mbo::hash::Streamer<Algo>"])
p("H03", "Hash values are equal at compile time and run time",
  "For every byte string and seed, each hash function evaluated as a constant expression equals its run-time value, including the portable and the native 64x64 multiply.",
  ["inputs"], "for every content and seed at each length, for each algorithm",
  "Run-time loads are wide and overlapping while constant evaluation assembles bytes; they may disagree for one length only.",
  ["mbo/hash/hash_internal_util.h", "mbo/hash/hash_mumbo.h", "mbo/hash/hash_tembo.h", "mbo/hash/hash_fambo.h", "mbo/hash/hash_dumbo.h"],
  [("constant-evaluation branches", "hash_internal_util.h")], ["<algo>::GetHash64/128 in constant evaluation"])
p("H04", "Hashing reads exactly the given bytes and is a function of them and the seed",
  "For every length, alignment and seed, hashing reads no byte outside the given range and commits no undefined behaviour, and its value depends only on the bytes and the seed. Every byte of the input and the seed influences the 64-bit and 128-bit values: inputs of the same length that differ in one byte can be told apart.",
  ["inputs"], "for every content, seed and alignment at each length, for each algorithm",
  "Overlapping tail reads that stray one byte out of range are invisible unless the neighbour byte differs.",
  ["mbo/hash"], [("tail reads", "hash_internal_util.h and per-algorithm headers")], ["<algo>::GetHash64/128"])
p("H05", "The build-rule hash port equals the C++ hash for every string",
  "For every string and seed, the Starlark implementations of mumbo, dumbo and FNV-1a return the same 64-bit values as the C++ implementations.",
  ["inputs"], "for every ASCII content and seed at each length",
  "The two sources are written in different languages and tests compare a few strings.",
  ["mbo/hash/hash.bzl", "mbo/hash/hash_mumbo.h", "mbo/hash/hash_dumbo.h", "mbo/hash/hash_fnv1a.h"],
  [("Starlark port", "hash.bzl")], ["hash.mumbo/hash.dumbo/hash.fnv1a"])
p("H06", "Width completion, folding, mangling and 128-bit results obey their contracts",
  "Any algorithm struct that offers only some widths is completed as documented: 32 bits is the XOR of the halves of the 64-bit value, 64 bits from 128 is the documented fold, a native width is used where it exists. The mangle XORs one build constant into the 64-bit value, and 128-bit results order lexicographically by their two halves.",
  ["inputs"], "for every hash value, content and seed, for algorithms of each shape",
  "Contracts are over all values and all algorithm shapes; tests pick a few values.",
  ["mbo/hash/hash.h", "mbo/hash/hash_types.h", "mbo/hash/hash_mangle.h", "mbo/hash/hash_internal_util.h"],
  [("Hasher completion", "hash.h"), ("Hash128 ordering", "hash_types.h"), ("mangle", "hash_mangle.h")],
  ["Hasher<Algo>", "GetHash32/64/128", "Hash64To32", "Hash128To64", "CombineHashes", "GetHash (mangled)"])
p("H07", "The in-house hashes keep their defined values",
  "For every byte string and seed, mumbo (64 bit), jumbo (128 bit) and dumbo return the value their definition gives: the definition documented in the build-rule port and in the hash documentation, with all length classes agreeing on it.",
  ["inputs"], "for every content and seed at each length",
  "A changed constant or tail rule that alters one length class keeps all statistical tests and most vectors.",
  ["mbo/hash/hash_mumbo.h", "mbo/hash/hash_dumbo.h", "mbo/hash/README.md"],
  [("mumbo/jumbo/dumbo definition", "hash_mumbo.h, hash_dumbo.h")], ["mumbo::GetHash64", "jumbo::GetHash128", "dumbo::GetHash64"])
# ---- containers
HIST = "Tests run a few hand-written call sequences; the defects need a particular sequence of positions, sizes and values."
p("C01", "The limited vector behaves like a standard vector within its capacity",
  "For every sequence of operations that stays within capacity, the limited vector holds the same elements in the same order, and returns the same positions, sizes and values, as a standard vector given the same operations. This includes insert and erase at every position, assign, resize, copy, move, swap and arguments that refer to its own elements.",
  ["histories", "inputs"], "for every operation history up to a length bound and all element values", HIST,
  ["mbo/container/limited_vector.h"], [("insert/erase/emplace/assign/resize", "limited_vector.h")], ["LimitedVector public API"],
  [("size and inline element storage", "first size slots are live elements", "limited_vector.h")])
p("C02", "Limited containers construct and destroy every element exactly once",
  "For every operation history, the limited containers destroy each element they constructed exactly once, never read or assign an element that is not alive, and leak nothing. Elements that own memory are therefore safe.",
  ["histories"], "for every operation history up to a length bound, with owning element types", HIST,
  ["mbo/container/limited_vector.h", "mbo/container/internal/limited_ordered.h"],
  [("element moves in insert/erase, destructor", "limited_vector.h, limited_ordered.h")], ["element construct/destroy events", "public API"])
p("C03", "The limited set behaves like a standard set for every history and option set",
  "For every sequence of insert, emplace, erase, clear, copy, swap and lookups within capacity, and for each supported option set and comparator, the limited set's contents, order, return values and lookups are those of a standard set. Its elements are always strictly increasing.",
  ["histories", "inputs", "configurations"], "for every operation history up to a length bound, all keys, and each option set", HIST,
  ["mbo/container/limited_set.h", "mbo/container/internal/limited_ordered.h"],
  [("sorted insert/erase/search", "limited_ordered.h")], ["LimitedSet public API"],
  [("sorted values", "first size slots hold strictly increasing keys", "limited_ordered.h")])
p("C04", "The limited map behaves like a standard map for every history and option set",
  "For every sequence of insert, emplace, try-emplace, insert-or-assign, index access, erase and lookups within capacity, the limited map's contents, order, return values and lookups are those of a standard map. In particular, operations documented not to overwrite never change an existing mapped value.",
  ["histories", "inputs", "configurations"], "for every operation history up to a length bound, all keys and mapped values", HIST,
  ["mbo/container/limited_map.h", "mbo/container/internal/limited_ordered.h"],
  [("emplace/try_emplace/operator[]", "limited_map.h, limited_ordered.h")], ["LimitedMap public API"])
p("C05", "Limited containers stop the program rather than exceed capacity or bounds",
  "Every operation that would exceed a limited container's capacity, and every checked access outside its current elements, terminates through the configured requirement check before any memory outside the container or any dead element is touched. Operations within the limits never terminate.",
  ["histories", "inputs"], "for every history up to a length bound with operations at and beyond the limits",
  "Off-by-one limits need the exact size at the exact operation; death tests pin one each.",
  ["mbo/container/limited_vector.h", "mbo/container/limited_set.h", "mbo/container/limited_map.h", "mbo/container/internal/limited_ordered.h", "mbo/config/require.h"],
  [("MBO_CONFIG_REQUIRE guards", "limited_vector.h, limited_ordered.h")], ["public API of the limited containers"])
p("C06", "Limited container comparisons are lexicographic and mutually consistent",
  "For every pair of limited vectors, sets or maps, also of different capacities, equality and ordering are exactly the lexicographic comparison of their current elements. The operators are mutually consistent and form a total order.",
  ["inputs"], "for every pair of contents up to a size bound",
  "Partially filled containers, prefixes and mixed capacities multiply; tests compare a few pairs.",
  ["mbo/container/limited_vector.h", "mbo/container/limited_set.h", "mbo/container/limited_map.h"],
  [("comparison operators", "the listed headers")], ["operator==, <=>, <"])
p("C07", "Every lookup path of the ordered containers finds the same element",
  "For every sorted content, every probe key (own type or a transparently comparable one) and every option set, index, find, contains, count, lower bound, upper bound, equal range and at agree with each other and with a linear scan. This holds for every capacity on both sides of the unrolling threshold.",
  ["inputs", "configurations"], "for every content, probe and option set, for each size up to and across the unroll limit",
  "There are several hand-unrolled and binary-search implementations; an error may show for one size and one rank only.",
  ["mbo/container/internal/limited_ordered.h", "mbo/container/limited_options.h"],
  [("index_of variants", "limited_ordered.h")], ["index_of, find, contains, count, lower_bound, upper_bound, equal_range, at"])
p("C08", "Container views and conversions deliver exactly the source sequence",
  "For every source container content, scanning it through the type-erased views (plain, const, converting) yields exactly its elements in order and its size, also when the view is copied, iterated repeatedly or owns a temporary. Converting it into another container yields the same elements, transformed by the given function if any.",
  ["inputs"], "for every content up to a size bound, for several source and target container types",
  "Type erasure hides iterator lifetime and end-state errors that show only for certain sizes and usage orders.",
  ["mbo/container/any_scan.h", "mbo/container/convert_container.h"],
  [("scan iterators", "any_scan.h"), ("conversion", "convert_container.h")], ["MakeAnyScan, MakeConstScan, MakeConvertingScan, ConvertContainer"])
# ---- strings
ALLS = "The property ranges over all strings; tests list a few dozen."
p("S01", "Integer formatting with separators is exact for every value",
  "For every value of every integer type, the grouped rendering is the decimal representation with a separator between groups of three digits and a leading minus sign for negatives. The reported length equals the length of that rendering.",
  ["inputs"], "for every integer value of each supported type", "Limits, powers of ten and the most negative value are corner cases among 2^64 inputs.",
  ["mbo/strings/numbers.h"], [("BigNumber, BigNumberLen", "numbers.h")], ["BigNumber", "BigNumberLen"])
p("S02", "Indent dropping removes exactly the first line's indentation",
  "For every text, dropping indentation drops an initial empty line, keeps the first line as it is otherwise, and removes the indentation of the next line from that and all following lines that start with it; a final line of blanks becomes empty. Nothing else changes and the split form yields the same lines.",
  ["inputs"], "for every text up to a length bound over all bytes", ALLS,
  ["mbo/strings/indent.cc", "mbo/strings/indent.h"], [("DropIndent", "indent.cc")], ["DropIndent", "DropIndentAndSplit"])
p("S03", "Comment, prefix and suffix stripping removes exactly what is documented",
  "For every text and every configured comment start and parse options, stripping comments keeps every line's text up to the first comment start outside quotes and escapes, and drops the comment. Prefix and suffix stripping removes the affix exactly when present and otherwise leaves the text unchanged.",
  ["inputs"], "for every text up to a length bound over all bytes", ALLS,
  ["mbo/strings/strip.cc", "mbo/strings/strip.h"], [("StripComments, StripLineComments, StripParsedComments", "strip.cc")],
  ["StripComments family", "StripPrefix/StripSuffix/ConsumePrefix/ConsumeSuffix"])
p("S04", "String parsing decodes escapes and quotes and stops exactly where it must",
  "For every input and option set, parsing returns the decoded text as documented (each escape form to its character, quotes removed or kept, custom quotes), consumes exactly the parsed prefix and stops at the configured stop characters or stop strings. Malformed escapes and unterminated quotes are reported as errors and never read past the end.",
  ["inputs", "configurations"], "for every input up to a length bound over all bytes and each option set", ALLS,
  ["mbo/strings/parse.cc", "mbo/strings/parse.h"], [("ParseString, ParseStringList", "parse.cc")], ["ParseString", "ParseStringList"])
p("S05", "Split-at-last and contains helpers agree with plain string search",
  "For every text and delimiter, splitting at the last delimiter yields the parts before and after its last occurrence; Contains answers exactly as a substring or character search.",
  ["inputs"], "for every text and needle up to a length bound", ALLS,
  ["mbo/strings/split.h", "mbo/strings/contains.h"], [("AtLast", "split.h"), ("Contains", "contains.h")], ["AtLast", "Contains"])
p("S06", "Compile-time strings behave like string views",
  "For every compile-time string and every argument, size, search, substring, comparison, prefix and suffix operations give the results the standard string view gives for the same characters.",
  ["inputs"], "for every argument (position, needle, other string) up to a size bound, for several literals", ALLS,
  ["mbo/types/tstring.h"], [("tstring operations", "tstring.h")], ["mbo::types::tstring"])
# ---- diff
p("F01", "Applying a produced diff to the left text yields the right text",
  "For every pair of texts, algorithm and context size, the unified, context or normal output read as a patch and applied to the left text reproduces the right text exactly, including a missing final newline. Its line numbers, counts and context lines match both texts. Side by side output that is wide enough shows both texts.",
  ["inputs", "configurations"], "for every pair of texts up to a line bound, for each algorithm, format and context size",
  "Golden files pin a few pairs; off-by-one ranges need particular adjacent change shapes.",
  ["mbo/diff/diff.cc", "mbo/diff/chunked_diff.cc", "mbo/diff/impl", "mbo/diff/internal"],
  [("algorithms", "impl/diff_myers.cc, diff_naive.cc, diff_direct.cc"), ("chunks and rendering", "internal/chunk.cc, internal/output.cc")], ["mbo::diff::Diff::DiffUnified and friends"])
p("F02", "A diff is empty exactly when the texts are equal under the options",
  "For every pair of texts and every ignore option (case, all, trailing or repeated space, final newline, comments), the diff is empty if and only if the texts are equal once what the options ignore is normalised away. With ignored blank or matching lines, it is empty for equal texts and otherwise only if the unmatched lines are all ignored ones.",
  ["inputs", "configurations"], "for every pair of texts up to a line bound and each option combination",
  "Option interactions with line positions are sampled by few goldens.",
  ["mbo/diff/base_diff.cc", "mbo/diff/internal/data.cc", "mbo/diff/impl"], [("line normalisation and comparison", "base_diff.cc, internal/data.cc")], ["mbo::diff::Diff"])
p("F03", "The Myers diff is minimal",
  "For every pair of texts, the Myers algorithm with the minimal option deletes and inserts together as few lines as any edit script needs.",
  ["inputs"], "for every pair of texts up to a line bound",
  "Minimality is a statement over all edit scripts; tests compare a few outputs.",
  ["mbo/diff/impl/diff_myers.cc"], [("middle snake search", "diff_myers.cc")], ["Diff with algorithm myers"])
p("F04", "The diff tool does what its flags say and exits with whether files differ",
  "For every pair of files and every flag, the diff tool prints exactly the difference the library gives for the option the flag names, exits 0 when there is none, 1 when there is one and 2 on trouble (an unreadable file or wrong arguments), and refuses unknown names.",
  ["inputs", "faults"], "for every flag and every pair of texts within the bounds",
  "A flag that is dropped, mixed up or refers to dead storage shows only for texts where that flag matters; the command line tests try a few.",
  ["mbo/diff/diff_main.cc", "mbo/diff/diff_options.cc"], [("MakeDiffOptions, Diff, main", "diff_main.cc")], ["the tool's main(): exit code and standard output"])
# ---- file
p("I01", "Path normalisation and joining keep the meaning of every path",
  "For every path, normalisation yields the lexically normalised form of the same path without trailing separators (a trailing backslash counts as one, '/' stays), applying it twice changes nothing, and absolute paths stay absolute. Joining joins the non-empty parts with single separators and normalises; a later absolute part is appended as if it were relative, or, in the respecting form, everything before it is dropped.",
  ["inputs"], "for every path up to a length bound", ALLS,
  ["mbo/file/file.cc", "mbo/file/file.h"], [("NormalizePath, JoinPaths", "file.cc, file.h")], ["NormalizePath", "JoinPaths", "JoinPathsRespectAbsolute", "IsAbsolutePath"])
p("I02", "INI data survives a write and read round trip",
  "For every INI content of groups, keys and values expressible in the format, writing it and reading it back gives the same groups, keys and values. Reading any text either succeeds with the documented meaning or reports an error.",
  ["inputs"], "for every set of groups, keys and values and every text up to a size bound", ALLS,
  ["mbo/file/ini/ini_file.cc", "mbo/file/ini/ini_file.h"], [("Parse, Write", "ini_file.cc")], ["IniFile::Read", "IniFile::Write", "accessors"])
p("I03", "Written files read back byte for byte; errors are reported, not hidden",
  "For every content, a successful write followed by a read returns the same bytes, and reading at most n lines returns the first n lines. Whenever the file system refuses or truncates an operation, an error status is returned.",
  ["inputs", "fault_sequences"], "for every content and every file-system failure point",
  "Failures of open, read and write cannot be provoked at each point by ordinary tests.",
  ["mbo/file/file.cc"], [("SetContents, GetContents, GetMaxLines", "file.cc")], ["SetContents", "GetContents", "GetMaxLines", "Readable"])
p("I04", "A glob pattern matches exactly the paths its documentation says",
  "For every pattern and path, the regular expression the pattern is converted to matches the path exactly when the glob documentation says it matches; invalid patterns are rejected. Splitting a pattern puts its wildcard-free leading directories, as a path, into the root and the rest, unchanged in meaning, into the pattern. Glob calls back exactly once for each matching entry below the root, honours the pruning, stopping and error answers of the callback, and reports a missing root.",
  ["inputs", "configurations"], "for every pattern and path up to a length bound, for each option set",
  "Pattern and path interact; tests list some pairs.",
  ["mbo/file/glob.cc", "mbo/file/glob.h"], [("Glob2Re2Expression, GlobSplit, GlobRe2", "glob.cc")], ["Glob2Re2Expression", "GlobSplit"])
p("I05", "The glob tool shows each matching entry once and counts what it shows",
  "For every directory tree, pattern, way to name the root and combination of flags, the glob tool shows exactly the matching entries that its filters (--nodotdir, --nodotfile, --norecurse_match) leave, each once, with its path relative to the root and the requested fields (size, type, depth); --noentries shows none. Summaries give the numbers, sizes and the greatest depth of the entries so far, on request also per extension, and every so many entries. Wrong arguments, invalid patterns and roots that cannot be read are reported with exit code 1 and nothing is printed then.",
  ["inputs", "configurations"], "for every tree, pattern and flag combination up to a size bound",
  "Flags, root forms and dot names combine; the repository has no test of the tool.",
  ["mbo/file/glob_main.cc", "mbo/file/glob.cc"], [("Entries, main", "glob_main.cc")], ["glob tool: main", "Entries::Add", "Entries::PrintSummary"])
# ---- json
p("J01", "JSON values keep, copy, compare and print what was stored",
  "For every sequence of stores into a JSON value, reading, copying, moving, iterating and serialising give back exactly what was stored, independent of internal ordering. Equality is structural: two values compare equal exactly when they hold the same data.",
  ["histories", "inputs"], "for every value tree and store history up to a size bound", HIST,
  ["mbo/json/json.h"], [("Json variant and containers", "json.h")], ["mbo::json::Json public API"])
# ---- types
p("T01", "Scalar comparison follows the mathematical order for every pair of types",
  "For every two numbers of any arithmetic types, comparison gives the order of their mathematical values, whatever their signedness and width. It is antisymmetric and transitive. (bool against another integer type compares truth values, as documented.)",
  ["inputs"], "for every pair and triple of values of each pair of scalar types",
  "Wrong results sit at sign and width limits of 64-bit types.",
  ["mbo/types/compare.h"], [("CompareIntegral, CompareScalar, CompareArithmetic", "compare.h")], ["CompareScalar", "CompareIntegral", "CompareArithmetic"])
p("T02", "Float comparison is a total order with NaN greatest",
  "For every two floating point values including infinities, signed zeros and NaNs, float comparison agrees with the built-in order where that is defined, treats all NaNs as equal and places NaN where documented, and is a total order. The string and generic less-than helper agrees with the ordering operators it wraps.",
  ["inputs"], "for every pair and triple of bit patterns", "NaN payloads and signed zeros are single points among 2^64.",
  ["mbo/types/compare.h"], [("CompareFloat, CompareLess, WeakToStrong", "compare.h")], ["CompareFloat", "CompareLess", "WeakToStrong"])
p("T03", "Optional references and reference wrappers track exactly their target",
  "For every history of binding, rebinding, resetting, copying and comparing, an optional reference reports a value exactly when bound, dereferences to the bound object itself and compares by the target's value with empty ordered first. Accessing an empty one stops the program; a required value and a reference wrapper always hold one.",
  ["histories", "inputs"], "for every operation history up to a length bound and all values", HIST,
  ["mbo/types/optional_ref.h", "mbo/types/ref_wrap.h", "mbo/types/required.h"], [("OptionalRef, RefWrap, Required", "the listed headers")], ["public API"])
p("T04", "Optional data-or-reference keeps state and ownership right in every history",
  "For every history of assignments, emplaces, resets, copies and moves between the empty, owning and referring states, the object reports the state and value last given, copies data when it owns and aliases when it refers, and constructs and destroys owned values exactly once.",
  ["histories", "inputs"], "for every operation history up to a length bound and all values", HIST,
  ["mbo/types/optional_data_or_ref.h"], [("OptionalDataOrRef", "optional_data_or_ref.h")], ["public API"])
p("T05", "Structs decompose into their fields in order",
  "For every aggregate value of any supported field count, converting it to a tuple yields all its fields in declaration order with their values, and the comparison, hashing and printing added by the extenders are those of that tuple.",
  ["inputs"], "for every field value, for aggregates of each size up to a bound",
  "One decomposition per field count is spelled out by hand; tests cover a few counts.",
  ["mbo/types/internal/decompose_count.h", "mbo/types/tuple_extras.h", "mbo/types/extend.h", "mbo/types/extender.h"], [("StructToTuple", "decompose_count.h"), ("extenders", "extender.h")], ["StructToTuple", "Extend<...>"])
p("T06", "Struct printing is faithful and escapes every string correctly",
  "For every struct value and option set, the printed form lists all fields in order with the configured decoration, and the JSON form is valid JSON that decodes to the same values. Every character that needs escaping is escaped.",
  ["inputs", "configurations"], "for every field value up to a size bound and each output mode", ALLS,
  ["mbo/types/stringify.h", "mbo/types/stringify.cc"], [("Stringify", "stringify.h")], ["Stringify::ToString"])
p("T07", "Opaque owners behave as exclusive values",
  "For every history of construction, copy, move and assignment, an opaque pointer or value owns its object alone: copies are deep and equal, a moved-from owner no longer refers to it, and each object is destroyed exactly once by the matching deleter. An opaque container or a proxy of one reads and changes its elements as the container would; a NoDestruct value is never destroyed and shows its object.",
  ["histories"], "for every operation history up to a length bound", HIST,
  ["mbo/types/opaque.h", "mbo/types/container_proxy.h", "mbo/types/no_destruct.h"], [("OpaquePtr, OpaqueValue, OpaqueContainer", "opaque.h"), ("ContainerProxy", "container_proxy.h"), ("NoDestruct", "no_destruct.h")], ["public API"])
p("T08", "Template search helpers return the boundary the predicate defines",
  "For every monotone or arbitrary predicate over the candidate range, the linear, reverse, last-match and binary searches return the index their documentation defines, or the documented not-found value.",
  ["inputs"], "for every predicate (truth table) over ranges up to a size bound",
  "Tests instantiate a few predicates.",
  ["mbo/types/template_search.h", "mbo/types/cases.h"], [("LinearSearch/ReverseSearch/MaxSearch/BinarySearch", "template_search.h")], ["the search templates"])
p("V01", "A test matcher accepts exactly the values its arguments describe",
  "For every status, value, container and text and every argument, the matchers for tests (IsOk, IsOkAndHolds, StatusIs, StatusHasPayload, StatusPayloads, IsElementOf, IsKeyOf, IsValueOf, CapacityIs, WhenTransformedBy, IsNullopt, EqualsText, WithDropIndent) accept exactly what they describe, the same whether they explain or not, and their negation accepts the rest.",
  ["inputs"], "for every status, value, container and text up to a size bound", ALLS,
  ["mbo/testing/status.h", "mbo/testing/matchers.h"], [("StatusIsMatcher, IsOkAndHoldsMatcherImpl, StatusHasPayload, StatusPayloads", "status.h"), ("IsElementOfMatcher, CapacityIsMatcher, WhenTransformedByMatcher, EqualsTextMatcher", "matchers.h")], ["the matchers with testing::Value and ExplainMatchResult"])
# ---- log/status/mope/tools
p("L01", "A scoped log stream delivers each message once, complete and in order",
  "For every sequence of writes and nestings, a scoped stream emits nothing before it ends, and then exactly one line with its location, its message, if any, and everything written to it in order; streams declared void emit nothing; in exit mode the line is flushed before the program ends with code 1. A passing local check evaluates its condition once, nothing of its message, and writes nothing; a failing one reports and ends the program. A timing is logged exactly once, when its scope ends, if it took its minimum time or its severity demands it, no matter how often it was moved; it names the function without result type, template arguments, parameters and qualifiers, lambdas as '[]()', whatever the text that the compiler gives as its name.",
  ["histories"], "for every history of stream operations up to a length bound", HIST,
  ["mbo/log/scoped_stream.h", "mbo/log/scoped_log_check.h", "mbo/log/log_timing.h", "mbo/log/log_timing.cc"], [("ScopedStream", "scoped_stream.h"), ("LogTimingImpl", "log_timing.h")], ["ScopedStream", "MBO_LOG_CHECK", "LogTiming"])
p("U01", "Status helpers propagate every error unchanged and run on success only",
  "For every status, the return-if-error and assign-or-return forms return exactly that error (plus documented additions) and otherwise continue with the value; the builder keeps code, payload and message and adds text exactly as documented.",
  ["inputs"], "for every code and message up to a length bound", "Codes, payloads and appended text combine; tests pin some.",
  ["mbo/status/status_builder.cc", "mbo/status/status_builder.h", "mbo/status/status_macros.h"], [("StatusBuilder", "status_builder.cc"), ("macros", "status_macros.h")], ["StatusBuilder", "MBO_RETURN_IF_ERROR", "MBO_ASSIGN_OR_RETURN"])
p("M01", "Template expansion substitutes exactly the configured sections and values",
  "For every template and configuration, expansion replaces each tag by its configured value, repeats each section once per configured dictionary or range step, keeps all other text unchanged and reports an error for anything malformed. Ranges always terminate.",
  ["inputs"], "for every template and configuration up to a size bound", ALLS,
  ["mbo/mope/mope.cc", "mbo/mope/mope.h"], [("Template::Expand", "mope.cc")], ["mbo::mope::Template"])
p("M02", "The mope tool writes the expansion for exactly the values it was given",
  "For every template, --set entry and INI file, the mope tool writes to its output exactly the expansion of the template with the values, sections and global values the entries and the INI file name. Malformed entries, unreadable inputs and failing outputs end with exit code 1, an error message and no output.",
  ["inputs", "faults"], "for every entry, value and INI text within the bounds, and every readable or unreadable input and output",
  "Entries with several separators, missing parts, conflicting sources and unreadable inputs interact; the tests run a few templates that work.",
  ["mbo/mope/mope_main.cc", "mbo/mope/ini.cc"], [("ApplySetFlag, Process, main", "mope_main.cc")], ["the tool's main(): exit code, standard output, output file"])
p("Y01", "Repository tools decide every input as documented",
  "For every input, the repository's helper tools produce the documented result: table alignment changes only spacing and is idempotent, and the coverage arithmetic and target-naming checks accept exactly the documented inputs.",
  ["inputs"], "for every input up to a size bound", ALLS,
  ["tools"], [("align_markdown_tables", "tools/align_markdown_tables.py"), ("checks", "tools/check_*.py")], ["tool functions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
