#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                  "mechanism": [dict(name=a, where=b) for a, b in mech],
                  "observe_at": list(observe), "hook_needed": None}})

H = "src/hashes/"
p("C01", "MD5/SHA-1/SHA-2 stream digests do not depend on how the data arrives",
  "For MD5, SHA-1, SHA-224/256/384/512 and SHA-512/224, SHA-512/256: however a message is cut into pieces (empty, one byte, any alignment to the block size, gigabytes) and however the streams of several contexts interleave, the digest equals the standard's digest of the concatenated bytes. This covers init/update/digest contexts, the one-shot, C-string and multi-segment (NULL segments skipped) functions. A context copied mid-stream continues independently, and an abandoned or finished context that is initialised again starts clean.",
  ["histories", "schedules", "inputs"], "every sequence of init/update/copy/abandon/digest over any number of contexts, every cut of every message up to beyond 2^32 bytes",
  "The tests hash a handful of short fixed strings in one piece; piece boundaries, message lengths in the last bytes of a block, re-use of contexts and the 2^29/2^31/2^32 byte marks are never reached.",
  [H+"md5.c", H+"sha1.c", H+"sha2-backend.c", H+"sha512.c", H+"sha384.c", H+"sha224.c", H+"sha256.c", H+"templates.h"],
  [("block buffering and length counters", H+"templates.h SHA_UPDATE; "+H+"sha2-backend.c sha384n512_update; "+H+"md5.c pgfe_md5_update"), ("padding", H+"sha2-backend.c sha224n256_padding, sha384n512_padding; "+H+"sha1.c sha1_padding")],
  [("ctx", "state, block buffer, bit count of one stream", "include/libpgfe/hashes/*.h")],
  ["pgfe_<alg>_update", "pgfe_<alg>_digest", "pgfe_<alg>_encode*"])
p("C02", "SHA-3/SHAKE absorb and squeeze do not depend on piece boundaries",
  "For SHA3-224/256/384/512, SHAKE128/256 and RawSHAKE128/256: however the input is cut into pieces (including pieces of gigabytes on a partly filled queue) and interleaved with other contexts, the output equals the standard's output for the concatenated input. For the SHAKE family repeated digest calls with whole-byte lengths continue one output stream, whatever the cut, up to beyond 2^32 output bits, and a last call with any bit length returns exactly that many bits with the unused high bits of the last byte zero. A context copied mid-stream continues independently, and a re-initialised one starts clean.",
  ["histories", "schedules", "inputs"], "every sequence of init/update/copy/digest/squeeze over any number of contexts and every cut of input and output",
  "The tests absorb a few short strings in one piece and squeeze once; queue boundaries, incremental squeezing, and lengths over 2^29 bytes are not reached.",
  [H+"keccak-backend.c", H+"shake.c", H+"sha3-224.c", H+"sha3-256.c", H+"sha3-384.c", H+"sha3-512.c"],
  [("queueing absorb", H+"keccak-backend.c keccak_absorb_b1600"), ("padding and suffix", H+"keccak-backend.c padding"), ("incremental squeeze", H+"keccak-backend.c keccak_squeeze_b1600")],
  [("sponge", "state, data queue, bits in queue, squeezable bits", "include/libpgfe/hashes/sha3.h")],
  ["pgfe_sha3_*_digest", "pgfe_shake*_digest", "pgfe_rawshake*_digest"])
p("C03", "File hashing digests exactly the bytes the stream delivered",
  "Hashing a FILE stream whose error indicator is clear (every encode_f function) yields the digest of exactly the bytes the stream delivers from its current logical position up to the first end-of-file or read error, whatever the sizes and delays of the reads underneath, the stream's buffering mode, and bytes pushed back or already consumed. A read error stays visible on the stream (ferror), the function always returns, and it neither closes the stream nor leaves it locked nor consumes data that arrives after that end-of-file or error.",
  ["fault_sequences", "schedules", "inputs"], "every delivery schedule of the underlying stream: short reads, EINTR/EIO at any byte, end-of-file at any byte with data after it, any buffer size",
  "The tests hash small healthy disk files; a short read, an error, or a delivery that ends exactly on the internal buffer size never happens.",
  [H+"templates.h"], [("read loop", H+"templates.h FRONTEND_GEN2/FRONTEND_GEN3 encode_f")], [], ["pgfe_<alg>_encode_f", "ferror/feof"])
p("C04", "Threads using separate objects never influence each other",
  "When several threads use the library at once, each on contexts, objects and buffers of its own, every call returns what it returns when that thread runs alone, whatever the interleaving. This holds for every C function and every C++ class, for one-shot calls, and for the very first use of a facility in the process by several threads at once.",
  ["schedules", "histories"], "every interleaving of any number of threads, each with its own objects, at the granularity of single memory accesses in the library",
  "Only base encoding has a threaded test, on one shared object and with real timing; hidden shared state (static buffers, lazily built tables) shows only in particular interleavings.",
  ["src/hashes/", "src/hmac/", "src/otp/", "src/base_encoding/", "src/fishes/", "src/core/"],
  [("all state lives in caller owned contexts/objects; only constant statics", "src/**")], [], ["all exported functions"])
p("C05", "One base encoder object can be shared by many threads",
  "Any number of threads may call encode and decode on one shared Base16/Base32/Base64 object at the same time; each call returns exactly the encoding or decoding of its own argument, as a single-threaded call would. No interleaving deadlocks, loses progress, or touches freed memory.",
  ["schedules", "histories"], "every interleaving of concurrent encode/decode calls with growing and shrinking arguments on one object",
  "The existing multithread test runs a few threads with real timing and same-sized inputs; the windows around cache growth are not controlled.",
  ["src/base_encoding/abstract_base_encoding.cpp", "include/libpgfe/base_encoding/abstract_base_encoding.hpp"],
  [("enc_mutex/dec_mutex", "src/base_encoding/abstract_base_encoding.cpp encode, decode")],
  [("en_cache/de_cache, encsz/decsz", "grow-only scratch buffers shared by all callers", "include/libpgfe/base_encoding/abstract_base_encoding.hpp")],
  ["AbstractBaseEncoding::encode", "AbstractBaseEncoding::decode"])
p("C06", "An allocation failure surfaces as bad_alloc and harms nothing else",
  "If any memory allocation inside a call on a C++ object (or a C++ helper function) fails, the call throws std::bad_alloc or still returns the right result; it never crashes, hangs, or returns a wrong value, and every object can still be destroyed. Base encoders, Blowfish, HOTP, TOTP and SequentialData objects are unchanged by the failed call: every later call, from any thread, works as if it had not been made; a HashEncoder works again after a successful reset().",
  ["fault_sequences", "histories", "schedules"], "failure of any subset of allocations at any point of any call history, also with several threads on one shared object",
  "No test makes an allocation fail.",
  ["src/base_encoding/abstract_base_encoding.cpp", "src/hashes/hash_encoder.cpp", "src/hmac/hmac_encoder.cpp", "src/otp/hotp.cpp", "src/otp/totp.cpp", "src/fishes/blowfish.cpp", "src/core/utils.cpp"],
  [("lock_guard around caches", "src/base_encoding/abstract_base_encoding.cpp"), ("context pointer cleared before re-allocation", "src/hashes/hash_encoder.cpp destroy_context/load_algorithm"), ("assign after allocate", "src/otp/hotp.cpp set_secret")], [], ["every public member function"])
p("C07", "HMAC equals RFC 2104 for every key, stream and context history",
  "For MD5, SHA-1, the SHA-2 family and SHA-3, the HMAC contexts, the one-shot functions, the algorithm-selecting function and HMACEncoder objects return the RFC 2104 code of the key and the concatenated message pieces, for keys of any length (empty, up to, equal to and beyond the block size) and any cut of the message. Setting a key starts a new message whatever happened to the context before; a context without a key behaves as with the empty key; a context copied mid-stream continues independently of the original. The sequence an HMACEncoder returned stays valid as long as that encoder.",
  ["histories", "schedules", "inputs"], "every history of init/set_key/update/copy/digest over interleaved contexts and objects, every key length",
  "The tests cover two or three RFC vectors per algorithm with short keys, each on a fresh context.",
  ["src/hmac/hmac.c", "src/hmac/hmac_encoder.cpp"], [("key preparation and inner/outer hash", "src/hmac/hmac.c hmac_gen"), ("dispatch", "src/hmac/hmac_encoder.cpp")],
  [("k_i_pad, k_o_pad, hash_ctx", "prepared key and inner stream", "include/libpgfe/hmac/hmac.h")], ["pgfe_hmac_*", "HMACEncoder::get_digest"])
p("C08", "HOTP objects always give the code of their latest secret and counter",
  "At any point of any history of set_secret (raw, C string, std::string, SequentialData, Base32 text), set_counter (full 64 bits) and generation calls, a HOTP object returns the RFC 4226 code for its current secret, counter, algorithm (SHA-1, SHA-2, SHA-3) and digit count, and its string form is that number padded with zeros to the digit count; the C functions agree. Without a secret it throws NotInitializedException; a failed call changes nothing; threads may generate from one shared object concurrently.",
  ["histories", "schedules", "fault_sequences", "inputs"], "every history of configuration and generation calls incl. failed ones, every secret/counter/digit count/algorithm, every interleaving of concurrent generate calls",
  "The tests compare a few counters below 10 with one secret.",
  ["src/otp/hotp.c", "src/otp/hotp.cpp", "src/otp/abstract_otp.cpp", "src/otp/otp-generic.c"], [("dynamic truncation", "src/otp/otp-generic.c"), ("secret/counter members", "src/otp/hotp.cpp")], [("secret, co, cur_alg", "configuration of the generator", "include/libpgfe/otp/hotp.hpp")], ["HOTP::generate", "HOTP::generate_str", "pgfe_hotp*"])
p("C09", "A TOTP object never shows a code that is not current",
  "Whenever a TOTP object generates a code (number or zero-padded string), it is the RFC 6238 code for a clock value the system clock showed during that call, with the object's current interval, initial time, secret and algorithm. This holds for any history of calls (set_counter included), and however the clock ticks, stalls, or is set forwards or backwards between and within calls, for all clock values not before the initial time (also beyond 2^31 and 2^32 seconds) and intervals from 1 to 2^31-1.",
  ["schedules", "histories", "fault_sequences"], "every clock trajectory (ticks, stalls, jumps in both directions, at any point inside or between calls) combined with every history of parameter changes and generation calls",
  "TOTP has no test that controls the clock; the cached counter is exercised only within one real second.",
  ["src/otp/totp.cpp", "src/otp/totp-internal.c", "include/libpgfe/otp/totp.hpp"], [("cached counter and its expiry", "src/otp/totp.cpp generate, refresh_counter, update_counter"), ("counter computation", "src/otp/totp-internal.c")],
  [("_update_time, delta, co", "cached time step", "include/libpgfe/otp/totp.hpp")], ["TOTP::generate", "TOTP::generate_str"])
p("C10", "TOTP functions take code and remaining seconds from one instant",
  "For each pgfe_totp* call there is one clock value shown during the call for which the returned code is the RFC 6238 code (secret, digits, interval, initial time, algorithm) and the reported remaining time is the seconds from that value to the end of its time step (1 to the interval). This holds even if the clock ticks or jumps during the call, for clock values not before the initial time (also beyond 2^32 seconds) and intervals from 1 to 2^31-1; passing no output for the remaining time is allowed.",
  ["schedules", "inputs", "fault_sequences"], "every clock value and every tick or jump between any two clock reads of one call, every interval/initial time",
  "The clock is not controlled in any test, and no test calls the TOTP functions at a step boundary.",
  ["src/otp/totp.c", "src/otp/totp-internal.c"], [("single clock read", "src/otp/totp.c pgfe_totp_generic"), ("counter and delta", "src/otp/totp-internal.c calc_periodic_counter")], [], ["pgfe_totp_generic", "pgfe_totp", "pgfe_totp_4digits", "pgfe_totp_6digits", "pgfe_totp_8digits"])
p("C11", "TOTP remaining_time and update_time describe the code last generated",
  "After a TOTP object generated a code and until its parameters change, remaining_time() is the end of that code's time step minus a clock value shown during the call (zero or negative once the step is over), however the clock moved in between. update_time() is a clock value that was shown during some generating call and lies inside that time step, and both reading functions change nothing.",
  ["schedules", "histories", "fault_sequences"], "every clock trajectory between and within calls, every interval and initial time",
  "No test calls remaining_time() or update_time().",
  ["src/otp/totp.cpp", "src/otp/totp-internal.c"], [("delta/_update_time", "src/otp/totp.cpp update_counter, remaining_time")], [("_update_time, delta", "instant and remaining seconds of the cached step", "include/libpgfe/otp/totp.hpp")], ["TOTP::remaining_time", "TOTP::update_time"])
p("C12", "Long-lived base encoders stay RFC 4648 exact over any call history",
  "However many calls of whatever sizes came before, encoding any bytes (including zeros) with Base16, Base32, Base32hex, Base64 or Base64url gives the RFC 4648 text, and decoding that text gives the bytes back, through the C functions and through one long-lived C++ object alike. Decoding also works when the text arrives with line breaks or other characters outside the alphabet, in lower case (Base16/32), without its padding, or cut off at any character, in which case the completely received bytes are returned.",
  ["histories", "inputs", "fault_sequences"], "every history of encode/decode calls of growing and shrinking sizes on one object, every data, every truncation point and every placement of line breaks",
  "The tests encode a few dozen fixed texts, each on a fresh object; zero bytes, cache growth, truncated and unpadded text are not covered.",
  ["src/base_encoding/base-encoding-internal.c", "src/base_encoding/abstract_base_encoding.cpp", "src/base_encoding/base16.c", "src/base_encoding/base32.c", "src/base_encoding/base64.c"],
  [("unit split and padding", "src/base_encoding/base-encoding-internal.c"), ("grow-only caches", "src/base_encoding/abstract_base_encoding.cpp")], [("en_cache, de_cache", "scratch buffers surviving between calls", "include/libpgfe/base_encoding/abstract_base_encoding.hpp")], ["encode", "decode", "pgfe_encode_base*", "pgfe_decode_base*"])
p("C13", "A Blowfish key set up once serves any number of concurrent users",
  "A Blowfish context or object set up with a key of 1 to 72 bytes encrypts and decrypts, from any number of threads concurrently and in any order, as the Blowfish cipher in ECB mode with zero padding to whole blocks; encrypting or decrypting leaves the key schedule unchanged. Decrypting a ciphertext returns the plaintext followed only by that padding, and re-initialising a context with another key leaves nothing of the old one.",
  ["schedules", "histories", "inputs"], "every interleaving of concurrent encrypt/decrypt calls on one context or object, every history of re-initialisation, every key and data length",
  "The tests run a few single-block vectors in one thread on fresh objects.",
  ["src/fishes/blowfish.c", "src/fishes/blowfish.cpp", "src/core/abstract_symmetric_crypter.cpp"], [("const context in encrypt/decrypt", "src/fishes/blowfish.c"), ("buffer sizing", "src/fishes/blowfish.cpp")], [("P, S", "key schedule", "include/libpgfe/fishes/blowfish.h")], ["pgfe_blowfish_*", "Blowfish::encrypt", "Blowfish::decrypt"])
p("C14", "No call reads or writes outside its buffers, whatever the history and faults",
  "In every history of calls that respects the documented buffer sizes - inputs of exactly the stated length, outputs with room for exactly the result (plus the terminating zero of the base encoding functions) - no call reads or writes outside these buffers and its own objects, modifies its input, or uses freed memory. This includes calls in which an allocation or a stream read fails and calls interleaved with other threads.",
  ["histories", "schedules", "fault_sequences", "inputs"], "every history over all C functions and C++ classes with exactly sized buffers, under allocation failures, stream faults and interleavings",
  "The tests use generously sized stack buffers, so that small overruns go unnoticed, and run without a sanitizer.",
  ["src/", "include/"], [("buffer size arithmetic in every module", "src/**")], [], ["all exported functions"])
p("C15", "Results never depend on stale memory",
  "Every result is a function of the arguments, the object's call history and the clock only: filling fresh heap blocks, stack space, context structures and object storage, and output buffers with arbitrary bytes beforehand changes no result, and every byte of every returned result is determined. This holds for freshly constructed objects of every algorithm, empty inputs, and after failed calls.",
  ["histories", "inputs", "fault_sequences"], "every content of uninitialised memory under every call history",
  "Tests run on mostly zeroed fresh memory, where reading an uninitialised member or buffer happens to work.",
  ["src/", "include/"], [("initialisation functions and member initialisers", "pgfe_*_init; include/libpgfe/algorithm_selectable.hpp; include/libpgfe/otp/hotp.hpp")], [], ["all exported functions"])
p("C16", "Objects return all memory they took, each block once and the right way",
  "Over any history of constructing, using and destroying objects and results, including calls that fail with bad_alloc, every block the library allocates is released exactly once and with the matching form of delete, also when an object is destroyed through a base class: repeating a history does not make memory grow. Results returned by value or as a new object belong to the caller; digest pointers returned by encoders belong to the encoder.",
  ["histories", "fault_sequences", "schedules"], "every history of object creation, use, failure and destruction, repeated any number of times",
  "Tests end after one operation and never look at the heap.",
  ["src/hashes/hash_encoder.cpp", "src/hmac/hmac_encoder.cpp", "src/base_encoding/abstract_base_encoding.cpp", "src/otp/hotp.cpp", "src/fishes/blowfish.cpp", "src/core/utils.cpp"], [("typed context deletion", "src/hashes/hash_encoder.cpp destroy_context"), ("unique_ptr members", "include/libpgfe/**")], [("ctx", "owned context of the selected algorithm", "include/libpgfe/hashes/hash_encoder.hpp")], ["operator new/delete as seen by the allocator"])
p("C17", "HashEncoder objects follow their lifecycle for every algorithm",
  "A HashEncoder of any of the 16 algorithms returns after any history of update (all overloads), get_digest and reset (a digest of a fixed-length algorithm, or one with a bit count that is not a multiple of 8, is the last call before a reset) the digest of exactly the bytes given since construction or the last reset; get_digest(n) returns for a fixed-length algorithm the first n/8 bytes (n a multiple of 8; all bytes for 0 or too large n) and for the SHAKE family n bits, by default 256 (SHAKE128, RawSHAKE128) or 512 (SHAKE256, RawSHAKE256), with further calls continuing the output. The returned sequence stays valid until the next get_digest or destruction of that encoder, and algorithm(), digest_size() and block_size() are those of the algorithm at all times, also after a failed reset.",
  ["histories", "fault_sequences", "schedules"], "every history of update/get_digest/reset (including resets that fail) over interleaved encoders, every algorithm and output length",
  "The tests hash one short string per algorithm with one call sequence.",
  ["src/hashes/hash_encoder.cpp", "src/core/algorithm_selectable.cpp", "include/libpgfe/hashes/hash_encoder.hpp"], [("reset/load_algorithm", "src/hashes/hash_encoder.cpp"), ("length computation", "src/hashes/hash_encoder.cpp get_digest")], [("ctx, out", "owned context and last digest", "include/libpgfe/hashes/hash_encoder.hpp")], ["HashEncoder"])
p("C18", "Hex text conversion is exact for every byte sequence and text",
  "Whatever ran before, in whatever thread and under whatever schedule, also on first use in several threads at once: converting bytes to hexadecimal text gives two lower-case digits per byte, and any text converts to exactly the bytes its digits name - either case, after a 0x prefix if there is one, with an h suffix, separators or any other bytes between, which count for nothing; of an odd number of digits the first stands alone. The computed length of a text equals the number of bytes it yields; nothing is written beyond them, the input is unchanged, and text may be cleaned in place. The C++ forms give the same or throw std::bad_alloc. Printing writes exactly the hexadecimal text to standard output, also when an earlier write failed.",
  ["histories", "schedules", "inputs", "fault_sequences"], "every byte sequence and every text under every interleaving, failing allocations and failing output streams",
  "Tests convert a few fixed strings in one thread.",
  ["src/core/utils.c", "src/core/utils.cpp", "src/core/generic-internal.c"], [("digit parsing", "src/core/generic-internal.c ch2hex; src/core/utils.c")], [], ["pgfe_hash_to_hex_string", "pgfe_hex_string_to_hash", "pgfe_hash_length", "pgfe_clean_hex", "pgfe_print_hash", "utils::sequential_data::from_hex_string"])
p("C19", "Algorithm names and size tables agree with the algorithms",
  "At any time, in any thread and under any schedule (also at the first use in the process, by several threads at once, and after failed lookups): every documented algorithm name, given as literal, C string or std::string, maps to its algorithm; any other text is rejected with an exception; a failed allocation gives std::bad_alloc or the right answer, never a wrong algorithm; and the digest and block length tables equal the sizes the algorithms really have.",
  ["histories", "schedules", "fault_sequences", "inputs"], "all names and other texts, in every order, interleaving and pattern of failing allocations",
  "Tests look up the names they happen to use, in one thread.",
  ["include/libpgfe/generic.hpp", "src/core/generic.cpp"], [("constant maps", "include/libpgfe/generic.hpp")], [], ["_algstr", "operator\"\"_algstr", "pgfe_digest_length", "pgfe_block_length"])
p("C20", "SequentialData values keep exactly their bytes through any history",
  "A SequentialData made from bytes, a C string, std::string, hex text (any case, with 0x prefix, h suffix or separators), or by copying, moving or pointing to another one holds exactly the given bytes (zeros included, any size), and keeps them until it is itself assigned, edited, moved from or destroyed, whatever happens to its source, to its copies and in other threads. Conversions (to_str, hex_str, to_pgfe_seq, stream output) give exactly these bytes and change nothing; trim, trim_left, trim_right and their in-place forms remove exactly the zero bytes at the ends they name. Threads may read and copy one shared value at once; an operation that fails with bad_alloc changes nothing; no size of data exhausts the stack.",
  ["histories", "fault_sequences", "schedules"], "every history of construction, copies, moves, assignments, trims and reads over several values, with failing allocations and concurrent readers",
  "Tests use it only as a carrier of short texts; trimming, failing allocations, copies that outlive their source and large data never occur.",
  ["src/core/sequential_data.cpp", "include/libpgfe/sequential_data.hpp", "src/core/utils.cpp", "src/core/utils.c"], [("constructors and trim", "src/core/sequential_data.cpp"), ("conversions", "src/core/utils.cpp")],
  [("bytes held by each value", "inherited string", "include/libpgfe/sequential_data.hpp")], ["SequentialData", "utils::to_sequential_data", "utils::sequential_data::from_hex_string"])
p("C21", "Contexts and objects may pass from thread to thread",
  "A context or C++ object (hash, HMAC, base encoding, HOTP, TOTP, Blowfish, SequentialData) gives the same results whichever threads make the calls on it, one after another, as if a single thread had made them all. This also holds when a thread that made, set up or used it has ended before the next call, when a thread comes back to it after others used or changed it, when a result one thread obtained is read or released by another, and when calls failed with bad_alloc in between.",
  ["schedules", "histories", "fault_sequences"], "every history of calls, every assignment of its calls to threads, every moment at which these threads begin and end",
  "Every test creates, uses and destroys its objects in one thread.",
  ["src/hashes/hash_encoder.cpp", "src/hmac/hmac_encoder.cpp", "src/otp/hotp.cpp", "src/otp/totp.cpp", "src/base_encoding/abstract_base_encoding.cpp", "src/fishes/blowfish.cpp", "src/core/sequential_data.cpp", "src/hashes/templates.h"],
  [("all state lives in contexts and objects, none in threads", "src/**")], [("members of every context and object", "whole state of a computation", "include/libpgfe/**")], ["all functions on contexts and objects"])
p("C22", "A call changes nothing but its results",
  "No call - whether it succeeds or fails by an allocation or a read error - changes, and at no moment during a call does other code see changed, process-wide state that is not its result: standard input, output and error (only pgfe_print_hash writes, to the stream it is given) and the C++ streams on them, open descriptors, C and C++ locale, environment, signal handlers and mask, working directory and file mode mask, resource limits and timers, the new and terminate handlers, floating-point modes, the cancellation state and name of the thread, and the sequence of rand().",
  ["histories", "fault_sequences", "schedules"], "every history of calls with injected failures, observed before and after every call and from other threads while calls are under way",
  "Tests compare return values only.",
  ["src/", "include/"], [("pure computation on caller memory", "src/**")], [], ["all exported functions"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
