HOOKS = dict(guard="cargo feature verif_hooks (off by default)", enable="cargo build --features verif_hooks", source_commits=["4fd1f9a6388d8185c334eaf4f971c0922bb158d2"])
C["C01"] = ("exhaustive enumeration of message lengths/patterns and truncations against a reference model",
 "Every message length 0..1300 (quick; thorough 5000) with several fillings, all one-byte and many two-byte messages, every single-bit two-block message, extreme words at every position, all SHA-512/t, and messages past 2^29 bytes, on the real code. Longer messages and arbitrary contents are outside the bound. The data also starts at every address modulo 64. Three blocks of which the second differs in one byte, each byte in turn.")
C["C02"] = ("exhaustive enumeration of operation histories against a state model of a digest object",
 "All sequences of up to 5 (SHA-3: 4) operations out of writes of boundary sizes, checksum, reset, clone and swap, all histories of up to 8 (SHA-3: 5) operations over four letters, plus every pair of chunk sizes over two blocks. Longer histories are outside the bound. One object also processes hundreds of messages and thousands of writes in a row. Single writes up to 2^21 bytes.")
C["C03"] = ("exhaustive enumeration of message/bit/output lengths against a FIPS 202 reference model",
 "Every byte length over three rate blocks, every bit length over one, every output length over 2.5 squeeze blocks, all single-bit blocks, all histories of up to 4 length changes/writes/checksums, inputs up to 2^20 bits and outputs up to 257 squeeze blocks at 12 lengths. Single writes of 64 to 128 KB, output lengths set afterwards as well as at construction, data at every address modulo 64. Three blocks of which the second differs in one byte, each byte in turn.")
C["C04"] = ("exhaustive state enumeration (all 2^25 states of the smallest width) and grids over widths, rounds, rates",
 "All states of width 25, all one-bit and two-bit states and 0..319 rounds for every width, all rates of the small widths and a dense grid of the large ones, histories up to 4 operations, and many absorbed and squeezed blocks for every width. Round counts around 2^9 and 2^10 (thorough up to 2^12; width 25 up to 2^17).")
C["C05"] = ("exhaustive enumeration of keys, messages and call histories of HMAC against RFC 2104 over the reference hashes",
 "Every key length over three blocks for every hash, byte and bit sweeps, all histories of up to 4-5 operations including re-keying. Longer histories are outside the bound. One object also authenticates hundreds of messages with many writes each. The data also starts at every address modulo 64. Keys and messages up to 2^20 bytes for the block hashes.")
C["C06"] = ("exhaustive enumeration of keys, message splits and call histories of CMAC against SP 800-38B",
 "All block sizes with a defined doubling constant (toy ciphers behind the public Cipher trait) and the real ciphers; every split of short messages, all histories of up to 6 operations. Longer messages/histories are outside the bound. One object also authenticates hundreds of messages with many writes each. The data also starts at every address modulo 64. Contents chosen so that what enters or leaves the cipher is zero, ones or has zeros or ones in each byte, head or tail; neighbouring blocks that differ in one byte. Single writes up to 2^20 bytes.")
C["C07"] = ("exhaustive enumeration of S-box inputs per round and key-schedule word, in the accelerated and the portable build",
 "For each key size every byte value at every position of every round (blocks computed backwards), every byte of every schedule word, all key-bit x block-bit pairs, all wrong lengths. Arbitrary 128-bit blocks are outside the bound. The data also starts at every address modulo 64.")
C["C08"] = ("exhaustive enumeration of S-box inputs per round, key bits and key triples against a bit-level DES",
 "Each of the 64 inputs of each S-box in each round for many keys, all key-bit x block-bit pairs, all byte values of keys/blocks, all key-equality patterns of triple DES, all wrong lengths. The data also starts at every address modulo 64.")
C["C09"] = ("exhaustive enumeration of S-box inputs per round of cipher and key schedule against an SM4 model",
 "Every byte value at every position of every round of cipher and key schedule, all key-bit x block-bit pairs, million-fold encryption, all wrong lengths. The data and keys also start at every address modulo 64.")
C["C10"] = ("exhaustive enumeration of messages, IVs, modes and call histories over toy and real block ciphers",
 "Toy block ciphers behind the public Cipher trait make complete small instances (all IVs, all 1-2 block messages of 1-byte blocks) enumerable; every length over 9 blocks for the real ciphers, every segment size, all histories of up to 4 calls, cipher and IV-source failures at every call. Blocks of 48-512 bytes at the lengths around each boundary, and ciphers that state no block size. One object also processes hundreds of messages in a row. The default IV source at every block size up to 300 (600) bytes. The data also starts at every address modulo 64. Contents chosen so that what enters or leaves the cipher is zero, ones or has zeros or ones in each byte, head or tail; neighbouring blocks that differ in one byte. Calls up to 2^20 bytes.")
C["C11"] = ("exhaustive enumeration of counter values, widths, lengths and call histories against a big-integer counter model",
 "All one- and two-byte counters through wrap-around, every carry position of counters up to 40 bytes, all histories of up to 6 calls on one object, counters of 48-512 byte blocks. One object also processes hundreds of calls in a row. The data also starts at every address modulo 64. Single calls of 2^15 to 2^18 bytes. Contents chosen so that what enters or leaves the cipher is zero, ones or has zeros or ones in each byte, head or tail; neighbouring blocks that differ in one byte.")
C["C12"] = ("exhaustive enumeration of chunkings x output-collection schedules x call histories of every stream type",
 "Every composition of up to 10 data bytes over 1-4 byte blocks times every subset of collection points, two messages per object, all pairs of cuts for the real ciphers, all histories of up to 6 operations (finishing without collecting among them), a cipher failing at every call, blocks of 48-512 bytes at chosen cuts. The data also starts at every address modulo 64. Single pieces of more than 2^16 bytes. Contents chosen so that what enters or leaves the cipher is zero, ones or has zeros or ones in each byte, head or tail; neighbouring blocks that differ in one byte.")
C["C13"] = ("exhaustive enumeration of byte strings and of decrypted last blocks",
 "All strings up to 9 letters over {00,80,01,ff}, all two-byte tails, every length x block size up to 40, all 65536 decrypted tails of small ciphers in one-shot and stream decryption; blocks of 48-512 bytes, where a one-byte length count could overflow.")
C["C14"] = ("exhaustive enumeration of key/IV bytes, stream splits and call histories against a ZUC model",
 "Every byte value at every key/IV position, all key-bit x IV-bit pairs, every split of up to 17 bytes, all histories of up to 7 calls, states whose LFSR feedback is 0 (solved for), all bearers/directions/count bits. One object also processes thousands of pieces in a row.")
C["C15"] = ("exhaustive enumeration of message lengths, splits, parameters and call histories against 128-EIA3",
 "Every length to 1200 bytes, every split of up to 18 bytes, all bearers/directions/count bits, all histories of up to 7 operations. One object also authenticates hundreds of messages in a row. The data also starts at every address modulo 64.")
C["C16"] = ("exhaustive enumeration of scripted random streams, sizes and prime counts for RSA key generation",
 "All small bit lengths and prime counts under all short scripts of random words (so that colliding primes and exponents without inverse occur), every refused request, and all small (n, e) pairs of public-key validation; each key is factored and checked independently. Large keys are covered by a handful of streams only.")
C["C17"] = ("exhaustive enumeration of all residues of many small RSA moduli and all blinding values",
 "Every residue of every generated modulus up to 12 bits with every blinding draw, boundary residues of larger two-, three- and four-prime moduli, all out-of-range representatives near the edges. Moduli beyond 12 bits are covered at boundary residues only. Structured residues also for moduli of 2040 to 4096 bits.")
C["C18"] = ("exhaustive enumeration of lengths, labels, seeds and structural corruptions of OAEP blocks against an RFC 8017 model",
 "Every message length of every modulus length in a range for toy and real hashes, every value of every byte of the encoded block, every representation of the ciphertext, all histories of short length. Corruptions of several independent bytes are outside the bound. Structured cases also for moduli of 2040 to 4096 bits and labels up to 2^17 bytes; hundreds of calls on one object.")
C["C19"] = ("exhaustive enumeration of padding shapes, first bytes, lengths and random streams of PKCS #1 v1.5 encryption",
 "All 65536 values of the first two bytes, every separator position and padding length, every byte value at every position, zero bytes at every place of the random stream, all short histories. Structured cases also for moduli of 2040 to 4096 bits; hundreds of calls on one object.")
C["C20"] = ("exhaustive enumeration of encoded-block and signature corruptions of PKCS #1 v1.5 signatures",
 "Every bit and every byte value of block and signature, every shape of padding and DigestInfo, other representations of the same residue, all modulus sizes around the refusal limit, all short histories. Structured cases also for moduli of 2040 to 4096 bits and messages up to 2^17 bytes; hundreds of calls on one object.")
C["C21"] = ("exhaustive enumeration of modulus sizes, salt settings and block corruptions of RSASSA-PSS against an RFC 8017 model",
 "Every modulus bit length in a range times every salt setting for toy hashes, each residue of the bit length modulo 8 for every real hash, every byte value at every data-block position, all bit flips, all pairs of configured and used salt length, recovered numbers reaching into the byte above the block, all histories of up to 5 calls. Structured cases also for moduli of 2040 to 4096 bits and messages up to 2^17 bytes; hundreds of calls on one object.")
C["C22"] = ("exhaustive enumeration of all signatures, keys, digests and secrets of small DSA domains against FIPS 186-4",
 "All (r, s) pairs of an 8-bit q for many (key, digest) pairs, all keys x digests, all per-message secrets (recovered from the signature and checked to cover [1, q-1]), all 8-bit q with moduli up to 72 bits, every digest length up to twice the size of q for q of 8 to 256 bits, digests of every number of bits up to 300, each bit of the random words of a secret, all bit flips, all histories of up to 4 calls, generated domains and keys of the four standard sizes, by every constructor, including scripted zero, maximal and too short candidates. Arbitrary large values are outside the bound. Groups with q of 264 to 512 bits at every digest length.")
C["C23"] = ("exhaustive enumeration of all keys, digests and signatures of small prime-order curves, and of structured signatures on the NIST curves",
 "All (r, s) pairs including out-of-range ones x all keys x all digests of every small curve, all keys x digests signed and the per-message secret recovered, digests of 1 to 72 bytes and of numbers of bits that are no multiple of eight on six curve objects, each bit (thorough; quick: one of eight on the generic curves) of the random words of secrets and generated keys, signatures constructed to hit x(R) >= n, u1 = 0, doublings and infinity, all histories of up to 3 (4) calls. Arbitrary 224- to 521-bit values are covered structurally only. Without the hook only the standard curves are explored. Messages up to 2^17 bytes and hundreds of calls on one object. Each bit of the private key (quick: one of sixteen on the generic curves) must change the secret.")
C["C24"] = ("exhaustive enumeration of all point pairs and scalars of every small prime-order curve, and of structured points on the NIST curves",
 "All pairs of points and all scalars beyond twice the order for every curve y^2 = x^3 - 3x + b of prime order with p <= 53 (thorough 97), all 16-bit random prefixes of key generation, all pairs from a grid of multiples on the four NIST curves. Without the hook only the standard curves are explored.")
C["C25"] = ("exhaustive enumeration of scalar windows, bits, runs and extreme points of the optimised curves against affine arithmetic",
 "Every value of every byte position of the scalar, all single bits and pairs from a set, scalars around multiples of the order and over-long ones, points with extreme or zero coordinates or extreme inner values of the formulas, all pairs of a point grid. Field elements are reached through points only.")
C["C26"] = ("exhaustive enumeration of fault sequences of the random source for every operation that consumes randomness",
 "Every subset of failing draws for operations with up to 8 (12) draws, otherwise every single draw, every neighbouring pair and every point of permanent failure, each followed by recovery on the same object. Faults later than the first few hundred draws of long key generations are outside the bound.")
C["C27"] = ("exhaustive enumeration of call histories on keys, curves, ciphers and signature objects with all inputs and displayed values compared after every call, and of interleavings of a clone with its original",
 "All histories of 17 curve operations (depth 2-3 on the standard curves, 4-5 on small ones), of 14 RSA key operations (depth 3-5), of every operation of the encryption and signature objects (depth 2-6); every constructor taking numbers with every in-place change afterwards; every interleaving of up to 2-6 operations on original and clone of every clonable type after every prefix of up to 2 operations, where the clone must answer as the original would have. Sharing that no public call can reveal is outside the bound. Clones of modes and counters also with blocks of 100 to 300 bytes.")
C["C28"] = ("exhaustive enumeration of destination contents, lengths, capacities and sharing for every operation that writes to a caller's buffer, against a twin object writing to new buffers",
 "About 150 fixed call sequences cover all writing operations; every destination length up to twice the output, four contents, four spare capacities, every assignment of three destinations to the calls, every ordered pair of sequences on one shared buffer, every collection schedule of streams. The messages written are fixed.")
C["C29"] = ("exhaustive enumeration of call histories with every accessor compared after every call, and of message lengths at the reported limits for every modulus length and hash",
 "Digests and MACs: all histories of up to 4 (6) of 5 operations; XOFs: up to 4 (5) of 6; OAEP: moduli of 12-150 (190) bytes with 12 hashes; PKCS#1: 24 (70) moduli with six hashes; PSS: 24 modulus lengths in bits above the minimum, five salt settings, 12 hashes, the salt recovered from the signature; public-only objects of RSA, DSA and ECDSA on all curve implementations. At each limit the lengths 0, 1, max-1, max, max+1, max+2 and max+200 are tried, not every length between. Every object made from the random source another one hands out draws as the other would have.")
C["C30"] = ("exhaustive enumeration of number pairs and of operation histories of signature objects against a plain model of their content",
 "All pairs of 385 numbers with 24 byte lengths up to 384 bytes and extreme first and last bytes, all pairs of one-byte numbers, all histories of up to 6 (7) of 9 operations (setting, signing, in-place changes, clearing), copies with both sides changed, byte signatures of every length up to several thousand. Numbers longer than 384 bytes are outside the bound.")
C["C31"] = ("exhaustive enumeration of numbers over extreme 32-bit words, bit lengths and key types, the text parsed back and compared",
 "All numbers of up to 4 words over seven extreme words in each place of EC, DSA and RSA keys, every bit length up to the bound, generated RSA and EC keys over enumerated random streams. The order of the numbers and the names beside them are not prescribed.")
C["C32"] = ("exhaustive enumeration of malformed inputs and of environment faults with the kind and text of every error compared",
 "Every malformed encoded block shape of PKCS#1 v1.5 and OAEP at every position for several moduli and hashes, single-bit changes of signatures, a random source failing at every draw, a cipher or IV source failing at every call with each of the nine kinds, all wrong sizes of keys, blocks, IVs, segments and ciphertexts around the legal ones. Texts are compared with each other only where telling failures apart would be an oracle; no wording is prescribed.")
C["C33"] = ("exhaustive enumeration of the orders of all steps of two objects in a fresh process, each result compared with that of a fresh process in which the object is alone",
 "105 kinds of objects with 2 to 33 parameter sets each (every byte of keys, IVs and parameters changed in turn); pairs of which one has the first parameter set (thorough: all pairs), all 252 orders of the up to five steps of both (kinds with slow operations: four orders), in one thread and in a thread per object under an enforced order; one object of every kind at once (24 orders of the first and 6 of the next six parameter sets; thorough: 630 orders, 33 sets, all pairs of kinds); all parameter sets of one kind at once in six orders; objects that stay and objects that go after their last step. The operations are fixed and few; unsynchronised use of one object by several threads is outside the property.")
